From f2d8f85b12710b60217566466c44234bdff181e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 01/48] fix: report write and close errors of the program image

---
 export.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/export.cpp b/export.cpp
index a4c0d63..f61e8ac 100644
--- a/export.cpp
+++ b/export.cpp
@@ -193,7 +193,13 @@ void write_file (const unsigned char *output_contents, int output_len, const cha
 		break;
 	}
 
-	fclose (outfile);
+	//nothing was lost only if every byte made it to the file
+	bool write_failed = ferror (outfile) != 0;
+	if (fclose (outfile) != 0)
+		write_failed = true;
+	if (write_failed)
+		SetLastSPASMError(SPASM_ERR_NO_ACCESS, output_filename);
+
 	free(curr_input_file);
 	curr_input_file = NULL;
 }
-- 
2.43.0


From 80158c86917390645287ef0ab3e38deb61d0be79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 02/48] fix: report write and close errors of the label file

---
 storage.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/storage.cpp b/storage.cpp
index ece6b5f..9a314b9 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -75,7 +75,11 @@ void write_labels (char *filename) {
 		node = node->next;
 	}
 
-	fclose (symtable);
+	bool write_failed = ferror (symtable) != 0;
+	if (fclose (symtable) != 0)
+		write_failed = true;
+	if (write_failed)
+		SetLastSPASMError(SPASM_ERR_NO_ACCESS, filename);
 	
 	list_free (label_list.next, true, NULL);
 	free(hdr_node.name);
-- 
2.43.0


From 7fe7fbc648a68bb844203d0366cf57e0f3090083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 03/48] fix: report close errors of the listing file

---
 main.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index 39c3962..75706e5 100644
--- a/main.cpp
+++ b/main.cpp
@@ -179,7 +179,10 @@ int run_assembly()
 				return EXIT_FATAL_ERROR;
 			}
 
-			fclose (file);
+			if (fclose (file) != 0) {
+				puts ("Error writing to listing file");
+				return EXIT_FATAL_ERROR;
+			}
 			eb_free(listing_buf);
 			listing_buf = NULL;
 		}
-- 
2.43.0


From 97fadb723b088c7afad306f55b36641c693495e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 04/48] fix: report write and close errors of redirected .echo
 files

---
 directive.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 8584e1c..1f1e2fd 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -284,6 +284,12 @@ addinstr_fail:
 				set_console_attributes (COLOR_GREEN);
 				ptr = parse_emit_string (ptr, ES_ECHO, echo_target);
 				restore_console_attributes(orig_attributes);
+
+				bool write_failed = ferror (echo_target) != 0;
+				if (fclose (echo_target) != 0)
+					write_failed = true;
+				if (write_failed)
+					SetLastSPASMError(SPASM_ERR_NO_ACCESS, filename);
 			} else {
 				char expr[256];
 				read_expr (&ptr, expr, "");
@@ -752,12 +758,6 @@ echo_error:
 
 	if (type == ES_ECHO && level == 1) {
 		if (echo_target == stdout) putchar ('\n');
-		else {
-			if (echo_target != NULL)
-			{
-				fclose ((FILE *) echo_target);
-			}
-		}
 	}
 	
 	level--;
-- 
2.43.0


From f4820425274a564ce4cc78e448c317b212bf4eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:31 +0000
Subject: [PATCH 05/48] fix: #import reports missing files by name and read
 errors

---
 preop.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index 8c33b0d..32d996d 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -589,10 +589,10 @@ char *handle_preop_import (char *ptr) {
 	char *file_path = full_path(qs);
 
 	//...and read it in
-	import_file = fopen(file_path, "rb");
+	import_file = file_path ? fopen(file_path, "rb") : NULL;
 	if (!import_file)
 	{
-		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, file_path);
+		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, qs);
 		free(file_path);
 		return ptr;
 	}
@@ -606,6 +606,10 @@ char *handle_preop_import (char *ptr) {
 		program_counter++;
 	}
 
+	//a read error must not pass for the end of the file
+	if (ferror(import_file))
+		SetLastSPASMError(SPASM_ERR_NO_ACCESS, qs);
+
 	fclose (import_file);
 	return ptr;
 }
-- 
2.43.0


From f6ed59ab1399c42897e170385a58b2c06ff8fbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 06/48] fix: getc() uses its offset and reports files it cannot
 read

---
 parser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index ea53f75..9727322 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -355,6 +355,7 @@ static const char *parse_single_num (const char *expr, int *value) {
 
 						expr++;
 						read_expr(&expr, filename, ",");
+						if (*expr == ',') expr++;
 
 						// Is the filename given a macro?
 						if ((define = search_defines (filename)))
@@ -367,11 +368,18 @@ static const char *parse_single_num (const char *expr, int *value) {
 
 						rfn = fix_filename (reduce_string (filename));
 						if ((temp_file = fopen (rfn, "r"))) {
-							fseek (temp_file, char_index, SEEK_SET);
+							bool read_failed = fseek (temp_file, char_index, SEEK_SET) != 0;
 							*value = fgetc (temp_file);
+							if (ferror (temp_file))
+								read_failed = true;
 							fclose (temp_file);
+							if (read_failed) {
+								SetLastSPASMError(SPASM_ERR_NO_ACCESS, filename);
+								return NULL;
+							}
 						} else {
 							SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, filename);
+							return NULL;
 						}
 
 						if (*expr == ')') expr++;
-- 
2.43.0


From 2dbee8df29ee5119e9b7a9ecec60f291961d60ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:11 +0000
Subject: [PATCH 07/48] fix: report bitmaps that cannot be read completely

---
 bitmap.cpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 0e2639a..ddbfeeb 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -145,7 +145,8 @@ bool IsFileBitmap(FILE *file)
 	fseek(file, 0, SEEK_SET);
 
 	BITMAPFILEHEADER bf;
-	fread (&bf, sizeof (BITMAPFILEHEADER), 1, file);
+	if (fread (&bf, sizeof (BITMAPFILEHEADER), 1, file) != 1)
+		return false;
 
 	if (LOBYTE(_W(bf.bfType)) == 'B' && HIBYTE(_W(bf.bfType)) == 'M')
 	{
@@ -168,14 +169,19 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 //		printf("Scan width calculation incorrect! (image size: %ld, scan: %ld)\n", biImageSize, biScanWidth);
 //		return;
 //	}
-	fseek(file, bf->bfOffBits + (biScanWidth * r->top), SEEK_SET);
+	bool seek_failed = fseek(file, bf->bfOffBits + (biScanWidth * r->top), SEEK_SET) != 0;
 	int min_w = parse_f("__BM_MIN_W");
 	
 	// Read in the image
 #define BITS_ACCESS(zr, zc) pBits[((zr) * biScanWidth) + (zc)]
 	//BYTE (*pBits)[biScanWidth] = malloc(biScanWidth * (r->bottom - r->top));
 	BYTE *pBits = (BYTE *) malloc(biScanWidth * (r->bottom - r->top));
-	fread ((BYTE *) pBits, biScanWidth * (r->bottom - r->top), 1, file);
+	if (r->bottom > r->top && biScanWidth != 0 && (seek_failed ||
+			fread ((BYTE *) pBits, biScanWidth * (r->bottom - r->top), 1, file) != 1)) {
+		show_error ("Bitmap file could not be read completely");
+		free (pBits);
+		return;
+	}
 
 	// Create the mask buffer
 	const DWORD biOutputRowSize = ((max(r->right - r->left, min_w) + 7) / 8) * 8;
@@ -347,12 +353,13 @@ void handle_bitmap(FILE *file)
 	int min_w = parse_f("__BM_MIN_W");
 	int bmp_num = 1;
 
-	fseek(file, 0, SEEK_SET);
-
 	BITMAPFILEHEADER bf;
-	fread (&bf, sizeof (BITMAPFILEHEADER), 1, file);
-
-	fread (&bi, sizeof (BITMAPINFOHEADER), 1, file);
+	if (fseek(file, 0, SEEK_SET) != 0 ||
+			fread (&bf, sizeof (BITMAPFILEHEADER), 1, file) != 1 ||
+			fread (&bi, sizeof (BITMAPINFOHEADER), 1, file) != 1) {
+		show_error ("Bitmap file could not be read completely");
+		return;
+	}
 
 	if (_DW(bi.biSize) != sizeof (BITMAPINFOHEADER) || _DW(bi.biCompression) != BI_RGB) {
 		show_error ("Bitmap file of this type not supported: size: %ld, compression: %ld\n", _DW(bi.biSize), _DW(bi.biCompression));
@@ -367,10 +374,15 @@ void handle_bitmap(FILE *file)
 
 	// Read in the palette
 	bmiColors = (LPRGBQUAD) calloc(nColors, sizeof(RGBQUAD));
-	fread(bmiColors, sizeof(RGBQUAD), nColors, file);
+	if (fread(bmiColors, sizeof(RGBQUAD), nColors, file) != nColors) {
+		show_error ("Bitmap file could not be read completely");
+		free(bmiColors);
+		return;
+	}
 
 	if (ftell (file) != _DW(bf.bfOffBits)) {
-		printf("invalid file structure!\n");
+		show_error("invalid file structure!");
+		free(bmiColors);
 		return;
 	}
 
-- 
2.43.0


From 0f6e143d650c3bd5ebc1d73eb0823ece9857a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:11 +0000
Subject: [PATCH 08/48] fix: a read error does not turn an #included bitmap
 into source text

---
 preop.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index 32d996d..19c5457 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -489,7 +489,17 @@ static char *handle_preop_include (char *ptr)
 		return ptr;
 	}
 	
-	if (IsFileBitmap(file))
+	bool is_bitmap = IsFileBitmap(file);
+	if (ferror(file))
+	{
+		SetLastSPASMError(SPASM_ERR_NO_ACCESS, name);
+		show_error ("Couldn't read #included file %s", file_path);
+		fclose (file);
+		free (file_path);
+		return ptr;
+	}
+
+	if (is_bitmap)
 	{
 		handle_bitmap(file);
 		fclose (file);
-- 
2.43.0


From b15f354d4f79029a7374d369ccf3208ea7b94af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:41 +0000
Subject: [PATCH 09/48] fix: get_file_contents handles seek and memory failures
 and short files

---
 utils.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 60c5e22..bbd7312 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -691,10 +691,12 @@ char *get_file_contents (const char *filename) {
 		return NULL;
 
 	// find file size (Spencer says it's not a hack)
-	fseek (file, 0, SEEK_END);
-	size = ftell (file);
-	rewind (file);
-
+	long end_pos;
+	if (fseek (file, 0, SEEK_END) != 0 || (end_pos = ftell (file)) < 0 || fseek (file, 0, SEEK_SET) != 0) {
+		fclose (file);
+		return NULL;
+	}
+	size = end_pos;
 
 	// If there is a UTF-8 endian marker at the beginning of the file, skip it.
 	const unsigned char utf8_endian_mark[] = {0xEF, 0xBB, 0xBF};
@@ -702,18 +704,29 @@ char *get_file_contents (const char *filename) {
 	for (unsigned i = 0; matched && i < sizeof(utf8_endian_mark); i++) {
 		int c = fgetc(file);
 		if (c == EOF) {
-			return NULL;
+			//too short for a marker, which is fine unless it couldn't be read
+			if (ferror (file)) {
+				fclose (file);
+				return NULL;
+			}
+			matched = false;
+			break;
 		}
 		matched &= (unsigned char)c == utf8_endian_mark[i];
 	}
 	if (matched) {
 		size -= sizeof(utf8_endian_mark);
-	} else {
-		rewind(file);
+	} else if (fseek (file, 0, SEEK_SET) != 0) {
+		fclose (file);
+		return NULL;
 	}
 
 	// now allocate the memory and read in the contents
 	buffer = (char *) malloc (size + 1);
+	if (buffer == NULL) {
+		fclose (file);
+		return NULL;
+	}
 	read_size = fread (buffer, 1, size, file);
 	fclose (file);
 
-- 
2.43.0


From 95d7ab08d7fac9efc76f8ccd6d15be3c6f311265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:41 +0000
Subject: [PATCH 10/48] fix: warnings do not end the run as fatal errors

---
 errors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors.cpp b/errors.cpp
index a67300a..add88b9 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -250,7 +250,7 @@ int CleanupSPASMErrorSession(int nSession)
 		{
 			pPrev->next = pList->next;
 		}
-		if(IsSPASMErrorFatal(lpErr->dwErrorCode)) {
+		if(!lpErr->fIsWarning && IsSPASMErrorFatal(lpErr->dwErrorCode)) {
 			fatalErrorCount++;
 		}
 		FreeErrorInstance(lpErr);
-- 
2.43.0


From 7278bf3f5bf85e64d532e8788ef8486b3858d4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:57 +0000
Subject: [PATCH 11/48] fix: printed error and warning diagnostics raise the
 exit status

---
 errors.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/errors.cpp b/errors.cpp
index add88b9..5bba7d8 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -30,6 +30,9 @@ int g_nErrorSession = 0;
 
 static void PrintSPASMError(const LPERRORINSTANCE lpError)
 {
+	const EXIT_STATUS status = lpError->fIsWarning ? EXIT_WARNINGS : EXIT_ERRORS;
+	if (exit_code < status) exit_code = status;
+
 	if (mode & MODE_CODE_COUNTER)
 	{
 		return;
-- 
2.43.0


From 0263089d8da6184be06b1fc1c86b457b02a04388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 12/48] fix: bytes skipped by .seek are zero in the output

The output buffer was neither cleared after allocation nor between the
assemblies of one process, so a gap left by .seek exposed whatever the
memory happened to hold.
---
 dll.cpp  | 2 ++
 main.cpp | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/dll.cpp b/dll.cpp
index 4490e50..cdc8de4 100644
--- a/dll.cpp
+++ b/dll.cpp
@@ -165,6 +165,8 @@ extern "C"
 			return EXIT_FATAL_ERROR;
 		}
 
+		//bytes that .seek skips must not show what an earlier run wrote there
+		memset(output_contents, 0, output_buf_size);
 		result = run_assembly();
 		fflush(stdout);
 	#ifdef LOG
diff --git a/main.cpp b/main.cpp
index 75706e5..05d887c 100644
--- a/main.cpp
+++ b/main.cpp
@@ -446,7 +446,8 @@ int main (int argc, char **argv)
 		init_storage();
 		is_storage_initialized = true;
 	}
-	output_contents = (unsigned char *) malloc(output_buf_size);
+	//zeroed, because bytes that .seek skips are part of the output
+	output_contents = (unsigned char *) calloc(output_buf_size, 1);
 	ClearSPASMErrorSessions();
 
 	int error = run_assembly();
-- 
2.43.0


From 6e5e6fb5063baa91cb60e965dd4ec238204d0515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 13/48] fix: a rejected .seek does not move the output pointer

After reporting the value as out of bounds the directive still applied
it, so the image was written from memory outside the output buffer.
---
 directive.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 1f1e2fd..9e837da 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -450,10 +450,13 @@ addinstr_fail:
 
 			//printf("value_str: %s\npc: %d\n", value_str, program_counter);
 
-			if (value > program_counter && (value - program_counter > output_buf_size - (out_ptr - output_contents)))
+			if (value > program_counter && (value - program_counter > output_buf_size - (out_ptr - output_contents))) {
 				show_fatal_error ("Seek location %d out of bounds", value);
-			else if (value < program_counter && (value - (int) program_counter + (out_ptr - output_contents) < 0))
+				break;
+			} else if (value < program_counter && (value - (int) program_counter + (out_ptr - output_contents) < 0)) {
 				show_fatal_error ("Seek value %d too small", value);
+				break;
+			}
 		
 			out_ptr += value - ((int) program_counter);
 			//printf("base: %p; ptr: %p\n", output_contents, out_ptr);
-- 
2.43.0


From 3376ef887114c76f7d188c337b44b7910f87746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:31 +0000
Subject: [PATCH 14/48] fix: a program rejected in pass one does not overwrite
 existing products

After a fatal error the truncated program still went through pass two
and its image, label file and listing replaced the ones of the last
good build.
---
 main.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/main.cpp b/main.cpp
index 05d887c..069a2ed 100644
--- a/main.cpp
+++ b/main.cpp
@@ -130,6 +130,17 @@ int run_assembly()
 	
 	list_free (include_dirs, true, NULL);
 	include_dirs = NULL;
+
+	//a program with a fatal error has no output, so leave existing output files alone
+	if (error_occurred) {
+		if (mode & MODE_LIST) {
+			eb_free(listing_buf);
+			listing_buf = NULL;
+		}
+		list_free(input_files, true, NULL);
+		input_files = NULL;
+		return EXIT_FATAL_ERROR;
+	}
 	
 	//...and if there's output, run the second pass and write it to the output file
 	if (mode & MODE_SYMTABLE || mode & MODE_NORMAL || mode & MODE_LIST)
-- 
2.43.0


From fc3b727d0cf82eb40ea8975a53bcce51e251ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:28 +0000
Subject: [PATCH 15/48] fix: a failing getc() in a data directive is an error

The data directives take a failed expression for a macro invocation and
used the stub definition of GETC instead, dropping the diagnostic.
---
 parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 9727322..51b1007 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -375,11 +375,11 @@ static const char *parse_single_num (const char *expr, int *value) {
 							fclose (temp_file);
 							if (read_failed) {
 								SetLastSPASMError(SPASM_ERR_NO_ACCESS, filename);
-								return NULL;
+								*value = 0;
 							}
 						} else {
 							SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, filename);
-							return NULL;
+							*value = 0;
 						}
 
 						if (*expr == ')') expr++;
-- 
2.43.0


From f3f12b027201d734ee88aeca4bf3a4bae474f44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:16 +0000
Subject: [PATCH 16/48] fix: an unavailable working directory name does not
 redirect files to /

When getcwd() failed temp_path was left empty, so relative names in
#include, #import and .echo were resolved against the root directory.
---
 main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index 069a2ed..4f84a8c 100644
--- a/main.cpp
+++ b/main.cpp
@@ -106,7 +106,9 @@ int run_assembly()
 #ifdef WIN32
 		_getcwd(temp_path, sizeof (temp_path));
 #else
-		getcwd(temp_path, sizeof (temp_path));
+		//the name can be unavailable (or too long), but "." always works
+		if (getcwd(temp_path, sizeof (temp_path)) == NULL)
+			strcpy(temp_path, ".");
 #endif
 	}
 
-- 
2.43.0


From 36bb41e0aa420dceed95a5ca4c08171b60695bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:55 +0000
Subject: [PATCH 17/48] fix: running out of memory ends the run instead of
 dropping symbols or text

---
 bitmap.cpp     | 26 +++++++++++++-------------
 directive.cpp  | 14 +++++++-------
 dll.cpp        | 14 +++++++-------
 errors.cpp     |  7 ++++---
 expand_buf.cpp |  8 ++++----
 export.cpp     |  8 ++++----
 list.cpp       |  6 +++---
 main.cpp       | 24 ++++++++++++------------
 parser.cpp     |  8 ++++----
 pass_one.cpp   | 14 +++++++-------
 pass_two.cpp   |  6 +++---
 preop.cpp      | 24 ++++++++++++------------
 storage.cpp    | 50 +++++++++++++++++++++++++-------------------------
 utils.cpp      | 41 ++++++++++++++++++++++++++++++-----------
 utils.h        |  6 ++++++
 15 files changed, 141 insertions(+), 115 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index ddbfeeb..2e5c7e9 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -77,7 +77,7 @@ static void handle_bitmap_header(const RECT *r, const BITMAPFILEHEADER *bf, cons
 		if (def_hdr_fmt == NULL)
 			return;
 		
-		hdr = strdup(def_hdr_fmt->contents);
+		hdr = checked_strdup(def_hdr_fmt->contents);
 		reduce_string(hdr);
 
 		for (p = strtok(hdr, ",;x "); p; p = strtok(NULL, ",;x ")) {
@@ -175,7 +175,7 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 	// Read in the image
 #define BITS_ACCESS(zr, zc) pBits[((zr) * biScanWidth) + (zc)]
 	//BYTE (*pBits)[biScanWidth] = malloc(biScanWidth * (r->bottom - r->top));
-	BYTE *pBits = (BYTE *) malloc(biScanWidth * (r->bottom - r->top));
+	BYTE *pBits = (BYTE *) checked_malloc(biScanWidth * (r->bottom - r->top));
 	if (r->bottom > r->top && biScanWidth != 0 && (seek_failed ||
 			fread ((BYTE *) pBits, biScanWidth * (r->bottom - r->top), 1, file) != 1)) {
 		show_error ("Bitmap file could not be read completely");
@@ -189,12 +189,12 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 	
 #define OUTPUT_ACCESS(zr, zc) pOutput[((zr) * biOutputRowSize) + (zc)]
 	//BYTE (*pOutput)[biOutputRowSize] = malloc(biByteSize);
-	BYTE *pOutput = (BYTE *) malloc(biByteSize);
+	BYTE *pOutput = (BYTE *) checked_malloc(biByteSize);
 	memset (pOutput, 0, biByteSize);
 	
 #define MASK_ACCESS(zr, zc) pMask[((zr) * biOutputRowSize) + (zc)]
 	//BYTE (*pMask)[biOutputRowSize] = malloc(biByteSize);
-	BYTE *pMask = (BYTE *) malloc(biByteSize);
+	BYTE *pMask = (BYTE *) checked_malloc(biByteSize);
 	memset (pMask, 1, biByteSize);
 	
 	RGBQUAD rgbMask = {0, 255, 0, 0};
@@ -373,7 +373,7 @@ void handle_bitmap(FILE *file)
 	}
 
 	// Read in the palette
-	bmiColors = (LPRGBQUAD) calloc(nColors, sizeof(RGBQUAD));
+	bmiColors = (LPRGBQUAD) checked_calloc(nColors, sizeof(RGBQUAD));
 	if (fread(bmiColors, sizeof(RGBQUAD), nColors, file) != nColors) {
 		show_error ("Bitmap file could not be read completely");
 		free(bmiColors);
@@ -387,7 +387,7 @@ void handle_bitmap(FILE *file)
 	}
 
 	if (last_label != NULL && last_label->value == program_counter) {
-		base_name = (char *) malloc(strlen(last_label->name) + 32);
+		base_name = (char *) checked_malloc(strlen(last_label->name) + 32);
 		strcpy(base_name, last_label->name);
 		suffix = base_name + strlen(base_name);
 	}
@@ -403,10 +403,10 @@ void handle_bitmap(FILE *file)
 
 		if (base_name) {
 			strcpy(suffix, "_WIDTH");
-			add_label(strdup(base_name), width);
+			add_label(checked_strdup(base_name), width);
 
 			strcpy(suffix, "_HEIGHT");
-			add_label(strdup(base_name), height);
+			add_label(checked_strdup(base_name), height);
 		}
 
 		handle_bitmap_header(&r, &bf, &bi);
@@ -426,7 +426,7 @@ void handle_bitmap(FILE *file)
 	} else {
 		int left, top, width = 0, height = 0, count = 0, i = 0;
 		char *p;
-		char *fmt = strdup(skip_whitespace(img_map->contents));
+		char *fmt = checked_strdup(skip_whitespace(img_map->contents));
 		reduce_string(fmt);
 
 		for (p = strtok(fmt, ",;x "); p; p = strtok(NULL, ",;x ")) {
@@ -449,10 +449,10 @@ void handle_bitmap(FILE *file)
 
 		if (base_name) {
 			strcpy(suffix, "_WIDTH");
-			add_label(strdup(base_name), width);
+			add_label(checked_strdup(base_name), width);
 
 			strcpy(suffix, "_HEIGHT");
-			add_label(strdup(base_name), height);
+			add_label(checked_strdup(base_name), height);
 		}
 
 		for (left = 0; left < _ZL(bi.biWidth); left += width + 2*padding) {
@@ -465,7 +465,7 @@ void handle_bitmap(FILE *file)
 					char num_buf[8];
 					sprintf(num_buf, "%d", bmp_num);
 					strcpy(suffix, num_buf);
-					add_label(strdup(base_name), program_counter);
+					add_label(checked_strdup(base_name), program_counter);
 				}
 
 				bmp_num++;
@@ -492,7 +492,7 @@ void handle_bitmap(FILE *file)
 map_done:
 		if (base_name) {
 			strcpy(suffix, "_COUNT");
-			add_label(strdup(base_name), bmp_num - 1);
+			add_label(checked_strdup(base_name), bmp_num - 1);
 		}
 
 		set_define(img_map, "0", -1, false);
diff --git a/directive.cpp b/directive.cpp
index 9e837da..424267f 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -139,7 +139,7 @@ char *handle_directive (const char *ptr) {
 		}
 		case 8: //ADDINSTR
 		{
-			instr *instr = (struct _instr *) malloc (sizeof (struct _instr));
+			instr *instr = (struct _instr *) checked_malloc (sizeof (struct _instr));
 			char word[256];
 			int result;
 			char *mnemonic = NULL;
@@ -151,12 +151,12 @@ char *handle_directive (const char *ptr) {
 
 			// Mnemonic
 			if (!read_expr (&ptr, word, " \t")) goto addinstr_fail;
-			mnemonic = strdup (word);
+			mnemonic = checked_strdup (word);
 
 			// Args
 			if (!read_expr (&ptr, word, " \t")) goto addinstr_fail;
 			reduce_string (word);
-			instr->args = strdup (word);
+			instr->args = checked_strdup (word);
 
 			// Instruction data
 			if (!read_expr (&ptr, word, " \t")) goto addinstr_fail;
@@ -203,7 +203,7 @@ char *handle_directive (const char *ptr) {
 				base += i + 1;
 			}
 
-			new_opcode = (opcode *)  malloc (sizeof (opcode));
+			new_opcode = (opcode *)  checked_malloc (sizeof (opcode));
 			new_opcode->name = mnemonic;
 			new_opcode->num_instrs = 1;
 			new_opcode->use_count = 0;
@@ -419,11 +419,11 @@ addinstr_fail:
 				}
 				
 				if (is_end_of_code_line (skip_whitespace (expr)))
-					expr = strdup ("1");
+					expr = checked_strdup ("1");
 				else {
 					//if (!parse_num (expr, NULL))
 					//	return NULL;
-					expr = strdup (expr);
+					expr = checked_strdup (expr);
 				}
 
 				if (strlen (name) == 0) {
@@ -431,7 +431,7 @@ addinstr_fail:
 					return NULL;
 				}
 
-				define_name = (char *) malloc (strlen (name) + 3);
+				define_name = (char *) checked_malloc (strlen (name) + 3);
 				strcat (strcpy (define_name, "__"), name);
 
 				define = add_define (define_name, NULL);
diff --git a/dll.cpp b/dll.cpp
index cdc8de4..a0fdce8 100644
--- a/dll.cpp
+++ b/dll.cpp
@@ -37,7 +37,7 @@ extern "C"
 		stdout->_file = _open_osfhandle((long)GetStdHandle(STD_OUTPUT_HANDLE), _O_TEXT);    
 		stdin->_file  = _open_osfhandle((long)GetStdHandle(STD_INPUT_HANDLE), _O_TEXT);  
 		*/
-			output_contents = (unsigned char *) malloc (output_buf_size);
+			output_contents = (unsigned char *) checked_malloc (output_buf_size);
 			setvbuf(stdout, output_text, _IOFBF, 65536);
 			break;
 		case DLL_THREAD_ATTACH:
@@ -66,7 +66,7 @@ extern "C"
 
 	__declspec (dllexport) int __stdcall 
 		SetInputFile(const char *lpFilename) {
-		curr_input_file = strdup(lpFilename); 
+		curr_input_file = checked_strdup(lpFilename); 
 	#ifdef LOG
 		fprintf(logfile, "SetInputFile: %s\n", curr_input_file);
 		fflush(logfile);
@@ -76,7 +76,7 @@ extern "C"
 
 	__declspec (dllexport) int __stdcall 
 	SetOutputFile(const char *lpFilename) {
-		output_filename = strdup(lpFilename);
+		output_filename = checked_strdup(lpFilename);
 	#ifdef LOG
 		fprintf(logfile, "SetInputFile: %s\n", output_filename);
 		fflush(logfile);
@@ -97,7 +97,7 @@ extern "C"
 
 	__declspec (dllexport) int __stdcall
 	AddDefine(const char *lpName, const char *lpValue) {
-		default_define_pair_t *ddp = (default_define_pair_t*)malloc (sizeof(*ddp));
+		default_define_pair_t *ddp = (default_define_pair_t*)checked_malloc (sizeof(*ddp));
 		strncpy(ddp->name, lpName, sizeof(ddp->name));
 		if (lpValue == NULL) {
 			strcpy(ddp->value, "1");
@@ -125,7 +125,7 @@ extern "C"
 
 	__declspec (dllexport) int __stdcall
 	AddInclude(const char *lpDirectory) {
-		include_dirs = list_append(include_dirs, strdup (lpDirectory));
+		include_dirs = list_append(include_dirs, checked_strdup (lpDirectory));
 	#ifdef LOG
 		fprintf(logfile, "AddInclude: %s\n", lpDirectory);
 		fflush(logfile);
@@ -144,7 +144,7 @@ extern "C"
 		while (list) {
 			char *name = ((default_define_pair_t *) list->data)->name;
 			char *value = ((default_define_pair_t *) list->data)->value;
-			add_define (strdup (name), NULL)->contents = strdup (value);
+			add_define (checked_strdup (name), NULL)->contents = checked_strdup (value);
 			list = list->next;
 		}
 	
@@ -188,7 +188,7 @@ extern "C"
 
 		output_filename = NULL;
 		mode = MODE_NORMAL | MODE_COMMANDLINE;
-		input_contents = (char *) malloc (strlen(szCommand) + 1 + 2);
+		input_contents = (char *) checked_malloc (strlen(szCommand) + 1 + 2);
 		
 		strcpy(input_contents, " ");
 		strcat(input_contents, szCommand);
diff --git a/errors.cpp b/errors.cpp
index 5bba7d8..81f58d8 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -6,6 +6,7 @@
 #include "spasm.h"
 #include "console.h"
 #include "list.h"
+#include "utils.h"
 
 typedef struct tagERRORINSTANCE
 {
@@ -59,7 +60,7 @@ static void PrintSPASMError(const LPERRORINSTANCE lpError)
 
 static LPERRORINSTANCE AllocErrorInstance()
 {
-	LPERRORINSTANCE lpErr = (LPERRORINSTANCE) malloc(sizeof(ERRORINSTANCE));
+	LPERRORINSTANCE lpErr = (LPERRORINSTANCE) checked_malloc(sizeof(ERRORINSTANCE));
 	lpErr->dwErrorCode = SPASM_ERR_SUCCESS;
 	lpErr->line_num = -1;
 	lpErr->lpszFileName = NULL;
@@ -340,7 +341,7 @@ static void SetLastSPASMProblem(DWORD dwErrorCode, bool fIsWarning, va_list vali
 	LPERRORINSTANCE lpErr = AllocErrorInstance();
 	lpErr->dwErrorCode = dwErrorCode;
 	lpErr->line_num = line_num;
-	lpErr->lpszFileName = _strdup(curr_input_file);
+	lpErr->lpszFileName = checked_strdup(curr_input_file);
 	//lpErr->fSuppressErrors = suppress_errors;
 	lpErr->fIsWarning = fIsWarning;
 	
@@ -371,7 +372,7 @@ static void SetLastSPASMProblem(DWORD dwErrorCode, bool fIsWarning, va_list vali
 			lpErr->lpszFileName, lpszProblemType, lpszProblemCode, lpErr->dwErrorCode, szDescription);
 	}
 
-	lpErr->lpszErrorText = _strdup(szBuffer);
+	lpErr->lpszErrorText = checked_strdup(szBuffer);
 
 	g_ErrorList = (errorlist_t *) list_prepend((list_t *) g_ErrorList, (LPVOID) lpErr);
 	//if (suppress_errors == false)
diff --git a/expand_buf.cpp b/expand_buf.cpp
index c8e1836..fc36084 100644
--- a/expand_buf.cpp
+++ b/expand_buf.cpp
@@ -11,11 +11,11 @@
  */
 //TODO: the size increase is exponential, I am not sure an init_size is necessary
 expand_buf *eb_init (size_t init_size) {
-	expand_buf_t *new_buf = (expand_buf_t *) malloc (sizeof (expand_buf_t));
+	expand_buf_t *new_buf = (expand_buf_t *) checked_malloc (sizeof (expand_buf_t));
 	
 	if (init_size == -1) init_size = 64;
 	
-	new_buf->start = (unsigned char *) malloc(init_size);
+	new_buf->start = (unsigned char *) checked_malloc(init_size);
 	new_buf->end = new_buf->start;
 	new_buf->size = init_size;
 	
@@ -59,7 +59,7 @@ int eb_insert (expand_buf *buf, int offset, const char *text, size_t length) {
 			buf->size = 1;
 		while ((size_t) (buf->end + length - buf->start) > buf->size)
 			buf->size *= 2;
-		buf->start = (unsigned char *) realloc (buf->start, buf->size);
+		buf->start = (unsigned char *) checked_realloc (buf->start, buf->size);
 		if (buf->start == NULL) {
 			puts ("Expand buf out of memory.");
 			exit (1);
@@ -128,7 +128,7 @@ char eb_get_char (expand_buf *buf, int offset) {
  */
 
 char *eb_extract (expand_buf *buf) {
-	return strndup ((char *) buf->start, buf->end - buf->start);
+	return checked_strndup ((char *) buf->start, buf->end - buf->start);
 }
 
 
diff --git a/export.cpp b/export.cpp
index f61e8ac..56535ae 100644
--- a/export.cpp
+++ b/export.cpp
@@ -112,7 +112,7 @@ void write_file (const unsigned char *output_contents, int output_len, const cha
 
 	free(curr_input_file);
 
-	curr_input_file = strdup(_T("exporter"));
+	curr_input_file = checked_strdup(_T("exporter"));
 	line_num = -1;
 
 
@@ -223,7 +223,7 @@ void makeapp (const unsigned char *output_contents, DWORD size, FILE *outfile, c
 	unsigned int total_size;
 
 	/* Copy file to memory */
-	buffer = (unsigned char *) calloc(1, size+256);
+	buffer = (unsigned char *) checked_calloc(1, size+256);
 	memcpy (buffer, output_contents, sizeof (char) * size);
 
 /* Check if size will fit in mem with signature */
@@ -478,7 +478,7 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	if (calc==TYPE_82P) {
 		char name_buf[256];
 		snprintf(name_buf, sizeof(name_buf), "\xdc%s", prgmname);
-		namestring = strdup (name_buf);
+		namestring = checked_strdup (name_buf);
 	} else {
 		// Find basename(prgmname)
 		const char *baseName = prgmname + strlen(prgmname) - 1;
@@ -495,7 +495,7 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 		}
 
 		// Use the base filename (no directory, if given) as the program name.
-		namestring = strdup(baseName);
+		namestring = checked_strdup(baseName);
 		/* The name must be capital letters and numbers */
 		if (calc < TYPE_85P) {
 			alphanumeric (namestring, calc == TYPE_8XV);
diff --git a/list.cpp b/list.cpp
index cadf1df..220b390 100644
--- a/list.cpp
+++ b/list.cpp
@@ -14,7 +14,7 @@
 EXPORT list_t *list_append (list_t *first_node, void *data) {
 	list_t *curr_node, *new_node;
 
-	new_node = (list_t *)malloc (sizeof (list_t));
+	new_node = (list_t *)checked_malloc (sizeof (list_t));
 	new_node->data = data;
 	new_node->next = NULL;
 
@@ -39,7 +39,7 @@ EXPORT list_t *list_append (list_t *first_node, void *data) {
 EXPORT list_t *list_prepend (list_t *first_node, void *data) {
 	list_t *new_node;
 
-	new_node = (list_t *)malloc (sizeof (list_t));
+	new_node = (list_t *)checked_malloc (sizeof (list_t));
 	new_node->data = data;
 	new_node->next = first_node;
 	return new_node;
@@ -52,7 +52,7 @@ EXPORT list_t *list_prepend (list_t *first_node, void *data) {
 EXPORT list_t *list_insert(list_t *prev, void *data) {
 	list_t *new_next;
 	
-	new_next = (list_t *) malloc(sizeof(list_t));
+	new_next = (list_t *) checked_malloc(sizeof(list_t));
 	new_next->data = data;
 	new_next->next = prev->next;
 	
diff --git a/main.cpp b/main.cpp
index 4f84a8c..e400d93 100644
--- a/main.cpp
+++ b/main.cpp
@@ -113,7 +113,7 @@ int run_assembly()
 	}
 
 	//add the the input file's path to the include directories
-	include_dirs = list_prepend (include_dirs, strdup (temp_path));
+	include_dirs = list_prepend (include_dirs, checked_strdup (temp_path));
 
 	printf ("Pass one... \n");
 
@@ -288,7 +288,7 @@ int main (int argc, char **argv)
 	in_macro = 0;
 	
 	//otherwise, get any options
-	curr_input_file = strdup("Commandline");
+	curr_input_file = checked_strdup("Commandline");
 	char *starting_input_file = curr_input_file;
 
 	while (curr_arg < argc) {
@@ -330,18 +330,18 @@ int main (int argc, char **argv)
 				char *dir, *p;
 				//make sure there's another argument after it for the include path
 				if (strlen(argv[curr_arg]) > 2) {
-					dir = strdup (&argv[curr_arg][2]);
+					dir = checked_strdup (&argv[curr_arg][2]);
 				} else {
 					if (curr_arg >= argc - 1) {
 						printf ("%s used without include path\n", argv[curr_arg]);
 						break;
 					}
 					
-					dir = strdup (argv[++curr_arg]);
+					dir = checked_strdup (argv[++curr_arg]);
 				}
 				
 				for (p = strtok (dir, ";,"); p; p = strtok (NULL, ";,")) {
-					include_dirs = list_append (include_dirs, strdup(p));
+					include_dirs = list_append (include_dirs, checked_strdup(p));
 				}
 				free(dir);
 				break;
@@ -376,9 +376,9 @@ int main (int argc, char **argv)
 
 				read_expr (&ptr, name, "=");
 
-				define = add_define (strdup (name), NULL);
+				define = add_define (checked_strdup (name), NULL);
 				if (*skip_whitespace (++ptr) != '\0')
-					define->contents = strdup (ptr);
+					define->contents = checked_strdup (ptr);
 				else
 					set_define (define, "1", 1, false);
 				break;
@@ -400,8 +400,8 @@ int main (int argc, char **argv)
 				}
 				
 				mode |= MODE_COMMANDLINE;
-				curr_input_file = strdup("-v");
-				input_contents = (char *) malloc (strlen(line) + 1 + 2);
+				curr_input_file = checked_strdup("-v");
+				input_contents = (char *) checked_malloc (strlen(line) + 1 + 2);
 				output_filename = change_extension (curr_input_file, "bin");
 					
 				strcpy(input_contents, line);
@@ -428,9 +428,9 @@ int main (int argc, char **argv)
 		} else {
 			//if it's not a flag, then it must be a filename
 			if (curr_input_file && (curr_input_file != starting_input_file) && !output_filename)
-				output_filename = strdup(argv[curr_arg]);
+				output_filename = checked_strdup(argv[curr_arg]);
 			else if ((!curr_input_file) || (curr_input_file == starting_input_file))
-				curr_input_file = strdup(argv[curr_arg]);
+				curr_input_file = checked_strdup(argv[curr_arg]);
 
 		}
 		curr_arg++;
@@ -460,7 +460,7 @@ int main (int argc, char **argv)
 		is_storage_initialized = true;
 	}
 	//zeroed, because bytes that .seek skips are part of the output
-	output_contents = (unsigned char *) calloc(output_buf_size, 1);
+	output_contents = (unsigned char *) checked_calloc(output_buf_size, 1);
 	ClearSPASMErrorSessions();
 
 	int error = run_assembly();
diff --git a/parser.cpp b/parser.cpp
index 51b1007..efd92c9 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -168,7 +168,7 @@ char *parse_define (define_t *define)
 		else if (is_end_of_code_line(curr_line) == false)
 		{
 			//otherwise, it must be a value, so return that
-			lpszResult = strndup(curr_line, skip_to_code_line_end(curr_line) - curr_line);
+			lpszResult = checked_strndup(curr_line, skip_to_code_line_end(curr_line) - curr_line);
 			break;
 		}
 
@@ -309,7 +309,7 @@ static const char *parse_single_num (const char *expr, int *value) {
 				const char *expr_start = expr;
 				//Find the end of the name, then try it as a label first
 				expr = skip_to_name_end (expr_start);
-				name = strndup (expr_start, expr - expr_start);
+				name = checked_strndup (expr_start, expr - expr_start);
 				
 				define = search_local_defines(name);
 				if (define == NULL) {
@@ -668,14 +668,14 @@ static bool conv_generic(const char *str, const char *end, int *output_num,
 	long long value = _strtoi64(str, &ep, base);
 
 	if (ep < end) {
-		char *number = strndup(str, end - str);
+		char *number = checked_strndup(str, end - str);
 		SetLastSPASMError(error_code, *ep, number);
 		free(number);
 		return false;
 	}
 
 	if (value < INT_MIN || value > UINT_MAX) {
-		char *number = strndup(str, end - str);
+		char *number = checked_strndup(str, end - str);
 		SetLastSPASMError(SPASM_ERR_INTEGER_OVERFLOW, number);
 		free(number);
 		return false;
diff --git a/pass_one.cpp b/pass_one.cpp
index 3dc4340..e510633 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -203,7 +203,7 @@ char *run_first_pass_line_sec (char *ptr) {
 		if (*label_end == '(')
 			return handle_opcode_or_macro (ptr);
 
-		name = strndup (ptr, label_end - ptr);
+		name = checked_strndup (ptr, label_end - ptr);
 
 		ptr = label_end;
 		
@@ -264,7 +264,7 @@ char *run_first_pass_line_sec (char *ptr) {
 
 static define_t *search_defines_helper(const char *name_start, size_t len)
 {
-	char *name = strndup(name_start, len);
+	char *name = checked_strndup(name_start, len);
 	define_t *result = search_defines(name);
 	free(name);
 	return result;
@@ -452,7 +452,7 @@ char *handle_opcode_or_macro (char *ptr) {
 					}
 					else
 					{
-						char *full_line = (char *)malloc(strlen(define->contents) + line_end - ptr + 1);
+						char *full_line = (char *)checked_malloc(strlen(define->contents) + line_end - ptr + 1);
 
 						strcpy(full_line, define->contents);
 						strncat(full_line, ptr, line_end - ptr);
@@ -470,7 +470,7 @@ char *handle_opcode_or_macro (char *ptr) {
 						//parse each line in the macro (prefix with space)
 						//Buckeye: this malloc size is extra so that we can simply replace
 						//@params and not worry about reallocating
-						char *full_macro = (char *) malloc(strlen(define->contents) + 2);
+						char *full_macro = (char *) checked_malloc(strlen(define->contents) + 2);
 						char *curr_line = full_macro;
 
 						full_macro[0] = ' ';
@@ -520,7 +520,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			EndSPASMErrorSession(session);
 
 		} else {
-			char *name = strndup(name_start, name_end - name_start);
+			char *name = checked_strndup(name_start, name_end - name_start);
 			SetLastSPASMError(SPASM_ERR_UNKNOWN_OPCODE, name);
 			free (name);
 		}
@@ -685,7 +685,7 @@ int write_instruction_data (instr *curr_instr, char **arg_ptrs, char **arg_end_p
 		//use the argument positions that were saved when we matched the arg strings
 		if (is_arg (curr_instr->args[i])) {
 			//first get the text of each argument
-			char *arg_text = strndup (arg_ptrs[curr_arg_num],
+			char *arg_text = checked_strndup (arg_ptrs[curr_arg_num],
 			                          arg_end_ptrs[curr_arg_num] - arg_ptrs[curr_arg_num]);
 			char *fake_arg_text;
 
@@ -736,7 +736,7 @@ int write_instruction_data (instr *curr_instr, char **arg_ptrs, char **arg_end_p
 						// prefix the arg with "0" so that the first "+" or "-" is
 						// correctly parsed as an operator, and not part of a local
 						// label, also handles an empty arg
-						fake_arg_text = (char *)malloc (1 + strlen(arg_text) + 1);
+						fake_arg_text = (char *)checked_malloc (1 + strlen(arg_text) + 1);
 						fake_arg_text[0] = '0';
 						strcpy (fake_arg_text + 1, arg_text);
 						add_pass_two_expr (fake_arg_text, ARG_IX_IY_OFFSET, size, 0);
diff --git a/pass_two.cpp b/pass_two.cpp
index 7b94102..945019b 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -35,7 +35,7 @@ void add_pass_two_expr (char *expr, arg_type type, int inst_size, int or_value)
 		expr_t *new_expr;
 
 		//if that didn't work, then add it to the pass two expression list
-		new_expr = (expr_t *)malloc (sizeof (expr_t));
+		new_expr = (expr_t *)checked_malloc (sizeof (expr_t));
 		new_expr->program_counter = program_counter;
 		new_expr->line_num = line_num;
 #ifdef USE_REUSABLES
@@ -98,7 +98,7 @@ void add_pass_two_expr (char *expr, arg_type type, int inst_size, int or_value)
 void add_pass_two_output (char *expr, output_type type) {
 	output_t *new_output;
 
-	new_output = (output_t *) malloc (sizeof (output_t));
+	new_output = (output_t *) checked_malloc (sizeof (output_t));
 	new_output->program_counter = program_counter;
 	new_output->line_num = line_num;
 #ifdef USE_REUSABLES
@@ -109,7 +109,7 @@ void add_pass_two_output (char *expr, output_type type) {
 	new_output->next = NULL;
 
 	if (type == OUTPUT_SHOW)
-		new_output->expr = strdup (expr);
+		new_output->expr = checked_strdup (expr);
 	else
 		new_output->expr = expand_expr (expr);
 
diff --git a/preop.cpp b/preop.cpp
index 19c5457..67a353f 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -38,7 +38,7 @@ char *handle_preop (char *ptr) {
 	name_end = ptr;
 	while (*name_end != 0 && !isspace(*name_end))
 		name_end++;
-	name = strndup (ptr, name_end - ptr);
+	name = checked_strndup (ptr, name_end - ptr);
 
 	//then try to match it against the list of preops
 	preop = 0;
@@ -104,7 +104,7 @@ char *handle_preop (char *ptr) {
 
 			nIfLevel++;
 			name_end = skip_to_name_end (ptr);
-			name = strndup (ptr, name_end - ptr);
+			name = checked_strndup (ptr, name_end - ptr);
 			//if it's defined, do all the normal #if stuff
 			define = search_defines (name);
 			condition = (define != NULL) && (define->contents!= NULL);
@@ -127,7 +127,7 @@ char *handle_preop (char *ptr) {
 
 			nIfLevel++;
 			name_end = skip_to_name_end (ptr);
-			name = strndup (ptr, name_end - ptr);
+			name = checked_strndup (ptr, name_end - ptr);
 
 			//same as #ifdef, but reversed
 			define = search_defines (name);
@@ -172,7 +172,7 @@ char *handle_preop (char *ptr) {
 			}
 
 			name_end = skip_to_name_end (ptr);
-			name = strndup (ptr, name_end - ptr);
+			name = checked_strndup (ptr, name_end - ptr);
 			remove_define (name);
 			free (name);
 			ptr = name_end;
@@ -197,7 +197,7 @@ char *handle_preop (char *ptr) {
 
 			//get the name
 			name_end = skip_to_name_end (ptr);
-			char *name = strndup(ptr, name_end - ptr);
+			char *name = checked_strndup(ptr, name_end - ptr);
 			
 			macro = add_define (name, NULL);
 			
@@ -248,7 +248,7 @@ char *handle_preop (char *ptr) {
 			char *defcont_start = ptr;
 			ptr = skip_to_next_line(ptr);
 			int defcont_len = strlen(last_define->name) + (ptr - defcont_start) + 1;
-			char *new_contents = (char *) malloc(defcont_len + 1);
+			char *new_contents = (char *) checked_malloc(defcont_len + 1);
 			strcpy(new_contents, last_define->name);
 			strcat(new_contents, " ");
 			strncat(new_contents, defcont_start, ptr - defcont_start);
@@ -281,7 +281,7 @@ char *handle_preop_define (const char *ptr) {
 
 	//get the name
 	name_end = skip_to_name_end (ptr);
-	define = add_define (strndup (ptr, name_end - ptr), &redefined);
+	define = add_define (checked_strndup (ptr, name_end - ptr), &redefined);
 	if (define == NULL)
 		return skip_to_line_end (ptr);
 
@@ -360,7 +360,7 @@ char *handle_preop_define (const char *ptr) {
 						}
 						else
 						{
-							char *define_buffer = strdup(define->contents);
+							char *define_buffer = checked_strdup(define->contents);
 							reduce_string(define_buffer);
 							eb_insert (buffer, -1, define_buffer, -1);
 							free(define_buffer);
@@ -404,7 +404,7 @@ char *full_path (const char *filename) {
 #else
 	if (is_abs_path(filename) && (access (filename, R_OK) == 0))
 #endif
-		return strdup (filename);
+		return checked_strdup (filename);
 	
 	dir = include_dirs;
 	full_path = NULL;
@@ -517,7 +517,7 @@ static char *handle_preop_include (char *ptr)
 		}
 
 		//add it to the list of input files
-		alloc_path = strdup (file_path);
+		alloc_path = checked_strdup (file_path);
 		input_files = list_prepend (input_files, alloc_path);
 		free (file_path);
 
@@ -643,7 +643,7 @@ char *handle_preop_if (char *ptr) {
 
 	expr_end = skip_to_code_line_end(ptr);
 
-	expr = strndup (ptr, expr_end - ptr);
+	expr = checked_strndup (ptr, expr_end - ptr);
 	
 	parse_num (expr, &condition);
 	free(expr);
@@ -716,7 +716,7 @@ char *parse_arg_defs (const char *ptr, define_t *define) {
 			show_fatal_error("Duplicate argument name '%s'", word);
 			return NULL;
 		}
-		define->args[define->num_args++] = strdup (word);
+		define->args[define->num_args++] = checked_strdup (word);
 	}
 	
 	if (*ptr == ')') ptr++;
diff --git a/storage.cpp b/storage.cpp
index 9a314b9..9d91108 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -56,7 +56,7 @@ void write_labels (char *filename) {
 	}
 
 	// Create a header node with an impossible label name
-	hdr_node.name = strdup("#header");
+	hdr_node.name = checked_strdup("#header");
 	
 	label_list.data = &hdr_node;
 	label_list.next = NULL;
@@ -100,7 +100,7 @@ void write_labels_callback(void *data, void *data_list) {
 		node = node->next;
 	}
 	//this is necessary since we have to free the define created labels
-	labelToAdd = (label_t *) malloc(sizeof(label_t));
+	labelToAdd = (label_t *) checked_malloc(sizeof(label_t));
 	labelToAdd->name = label->name;
 	labelToAdd->value = label->value;
 	list_insert (prev, labelToAdd);
@@ -128,7 +128,7 @@ void write_defines_callback(void *data, void *data_list) {
 		node = node->next;
 	}
 	
-	label = (label_t *) malloc(sizeof(label_t));
+	label = (label_t *) checked_malloc(sizeof(label_t));
 	label->name = define->name;
 	label->value = value;
 	list_insert(prev, label);
@@ -197,22 +197,22 @@ void init_storage() {
 	define_table = hash_init (destroy_define_value);
 	label_table = hash_init (destroy_label_value);
 
-	add_define (strdup ("SPASM"), NULL)->contents = strdup ("1");
-	add_define (strdup ("SPASMVER"), NULL)->contents = strdup ("2");
-	add_define (strdup ("__LINE"), NULL)->contents = strdup ("0");
-	add_define (strdup ("__FILE"), NULL)->contents = strdup ("Init");
-	add_define (strdup ("TRUE"), NULL)->contents = strdup ("1");
-	add_define (strdup ("FALSE"), NULL)->contents = strdup ("0");
-	add_define (strdup ("__BM_SHD"), NULL)->contents = strdup ("2");
-	add_define (strdup ("__BM_MSK_RGB"), NULL)->contents = strdup ("RGB(0, 255, 0)");
-
-	(define = add_define (strdup ("RGB"), NULL))->contents = strdup ("((__R) << 16)|((__G) << 8)|(__B)");
-	test = strdup ("__R,__G,__B)");
+	add_define (checked_strdup ("SPASM"), NULL)->contents = checked_strdup ("1");
+	add_define (checked_strdup ("SPASMVER"), NULL)->contents = checked_strdup ("2");
+	add_define (checked_strdup ("__LINE"), NULL)->contents = checked_strdup ("0");
+	add_define (checked_strdup ("__FILE"), NULL)->contents = checked_strdup ("Init");
+	add_define (checked_strdup ("TRUE"), NULL)->contents = checked_strdup ("1");
+	add_define (checked_strdup ("FALSE"), NULL)->contents = checked_strdup ("0");
+	add_define (checked_strdup ("__BM_SHD"), NULL)->contents = checked_strdup ("2");
+	add_define (checked_strdup ("__BM_MSK_RGB"), NULL)->contents = checked_strdup ("RGB(0, 255, 0)");
+
+	(define = add_define (checked_strdup ("RGB"), NULL))->contents = checked_strdup ("((__R) << 16)|((__G) << 8)|(__B)");
+	test = checked_strdup ("__R,__G,__B)");
 	parse_arg_defs (test, define);
 	free(test);
 	
-	(define = add_define (strdup ("GETC"), NULL))->contents = strdup ("(0)");
-	test = strdup ("__A, __N)"); 
+	(define = add_define (checked_strdup ("GETC"), NULL))->contents = checked_strdup ("(0)");
+	test = checked_strdup ("__A, __N)"); 
 	parse_arg_defs (test, define);
 	free(test);
 }
@@ -325,13 +325,13 @@ define_t *add_define (char *name, bool *redefined, bool search_local) {
 	if (redefined != NULL)
 		*redefined = false;
 
-	define = (define_t *) malloc (sizeof (define_t));
+	define = (define_t *) checked_malloc (sizeof (define_t));
 	if (define != NULL) {
 		int curr_arg;
 
 		define->name = name;
 		define->line_num = line_num;
-		define->input_file = strdup(curr_input_file);
+		define->input_file = checked_strdup(curr_input_file);
 		define->contents = NULL;
 		define->num_args = 0;
 
@@ -485,7 +485,7 @@ void set_define (define_t *define, const char *str, int len, bool redefined) {
 		if (define->contents)
 			free (define->contents);
 
-		define->contents = (len == -1 ? strdup (str) : strndup (str, len));
+		define->contents = (len == -1 ? checked_strdup (str) : checked_strndup (str, len));
 
 	} else {
 		char *result, *temp;
@@ -495,8 +495,8 @@ void set_define (define_t *define, const char *str, int len, bool redefined) {
 
 		define_table = hash_init (destroy_define_value);
 		
-		add_define (strdup (define->name), NULL, false)->contents = strdup (define->contents);
-		temp = len == -1 ? strdup (str) : strndup (str, len);
+		add_define (checked_strdup (define->name), NULL, false)->contents = checked_strdup (define->contents);
+		temp = len == -1 ? checked_strdup (str) : checked_strndup (str, len);
 		result = expand_expr (temp, false);
 		free(temp);
 
@@ -597,12 +597,12 @@ label_t *add_label (char *name, int value) {
 			restore_console_attributes(attr);
 		}
 	} else {
-		new_label = (label_t *)malloc (sizeof (label_t));
+		new_label = (label_t *)checked_malloc (sizeof (label_t));
 		
 		if (new_label != NULL) {
 			new_label->name = name;
 			new_label->line_num = line_num;
-			new_label->input_file = strdup(curr_input_file);
+			new_label->input_file = checked_strdup(curr_input_file);
 			new_label->value = value;
 			
 			hash_insert (label_table, new_label);
@@ -643,14 +643,14 @@ void add_arg(char *name, char *value, list_t *arg_set) {
 		name = new_name;
 	}
 
-	new_arg = (define_t *) malloc(sizeof(define_t));
+	new_arg = (define_t *) checked_malloc(sizeof(define_t));
 	memset(new_arg, 0, sizeof(define_t));
 
 	new_arg->name = name;
 	new_arg->contents = value;
 	new_arg->num_args = 0;
 	new_arg->line_num = line_num;
-	new_arg->input_file = strdup(curr_input_file);
+	new_arg->input_file = checked_strdup(curr_input_file);
 
 	hash_insert((hash_t *) arg_set->data, new_arg);
 }
diff --git a/utils.cpp b/utils.cpp
index bbd7312..351c8d6 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -243,7 +243,7 @@ char *eval (const char *expr)
 			value = -value;
 		}
 		snprintf (result, sizeof (result), "%s$%0X", sign, value);
-		expr_value = strdup (result);
+		expr_value = checked_strdup (result);
 	}
 	else
 	{
@@ -290,12 +290,12 @@ char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 
 				if (*define->args[num_args] == '@')
 				{
-					add_arg(strdup(define->args[num_args++]), strdup(word), *curr_arg_set);
+					add_arg(checked_strdup(define->args[num_args++]), checked_strdup(word), *curr_arg_set);
 				}
 				else
 				{
 					label_t *label = search_labels(define->name);
-					add_arg(strdup(define->args[num_args++]), eval(word), *curr_arg_set);
+					add_arg(checked_strdup(define->args[num_args++]), eval(word), *curr_arg_set);
 					//free(evald_word);
 				}
 
@@ -308,7 +308,7 @@ char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 
 	//fill in the undefined arguments
 	while (num_args < define->num_args)
-		add_arg (strdup (define->args[num_args++]), NULL, *curr_arg_set);
+		add_arg (checked_strdup (define->args[num_args++]), NULL, *curr_arg_set);
 
 	if (*ptr == ')') ptr++;
 	return (char *) ptr;
@@ -625,7 +625,7 @@ bool is_abs_path(const char *filename) {
  */
 
 char *strup (const char *input) {	
-	char *new_string = (char *) malloc (strlen (input) + 1);
+	char *new_string = (char *) checked_malloc (strlen (input) + 1);
 	/*int i;
 	for (i = 0; input[i] != '\0'; i++)
 		new_string[i] = toupper (input[i]);
@@ -722,7 +722,7 @@ char *get_file_contents (const char *filename) {
 	}
 
 	// now allocate the memory and read in the contents
-	buffer = (char *) malloc (size + 1);
+	buffer = (char *) checked_malloc (size + 1);
 	if (buffer == NULL) {
 		fclose (file);
 		return NULL;
@@ -761,7 +761,7 @@ bool define_with_value (const char *name, const int value) {
 
 char *change_extension (const char *filename, const char *ext) {
 	char *dot;
-	char *new_fn = (char *) malloc(strlen(filename) + strlen(ext) + 2);
+	char *new_fn = (char *) checked_malloc(strlen(filename) + strlen(ext) + 2);
 	strcpy(new_fn, filename);
 	
 	dot = strrchr(new_fn, '.');
@@ -832,7 +832,7 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 		name_len = name - expr;
 		//skip if there's no name, or if it's a macro with arguments
 		if (name_len > 0) {
-			name = strndup (expr, name_len);
+			name = checked_strndup (expr, name_len);
 			
 			//if it's a define, recursively expand its contents
 			if ((define = search_defines (name, search_local)) && define->contents != NULL) {
@@ -903,14 +903,33 @@ char *expand_expr (const char *expr, bool search_local) {
  * of memory
  */
 
-/*void *malloc (size_t size) {
-	void *ret = malloc (size);
+static void *check_memory (void *ret) {
 	if (ret != NULL)
 		return ret;
 
 	puts ("Out of memory, exiting");
 	exit (EXIT_FATAL_ERROR);
-}*/
+}
+
+void *checked_malloc (size_t size) {
+	return check_memory (malloc (size ? size : 1));
+}
+
+void *checked_calloc (size_t count, size_t size) {
+	return check_memory (count && size ? calloc (count, size) : calloc (1, 1));
+}
+
+void *checked_realloc (void *ptr, size_t size) {
+	return check_memory (realloc (ptr, size ? size : 1));
+}
+
+char *checked_strdup (const char *str) {
+	return (char *) check_memory (strdup (str));
+}
+
+char *checked_strndup (const char *str, size_t len) {
+	return (char *) check_memory (strndup (str, len));
+}
 
 void show_error_prefix(const char *zcif, const int zln) {
 	//BuckeyeDude
diff --git a/utils.h b/utils.h
index 2d25844..8deedb5 100644
--- a/utils.h
+++ b/utils.h
@@ -4,6 +4,12 @@
 #include "storage.h"
 #include "modp_ascii.h"
 
+void *checked_malloc (size_t size);
+void *checked_calloc (size_t count, size_t size);
+void *checked_realloc (void *ptr, size_t size);
+char *checked_strdup (const char *str);
+char *checked_strndup (const char *str, size_t len);
+
 #define MAX_ARG_LEN	256
 #define ARG_CONTEXT_INITIALIZER {"", true, false}
 typedef struct arg_context
-- 
2.43.0


From dc46e0156a60028748924aff1fcff550f5bec68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 18/48] fix: an assembly does not depend on earlier ones in the
 same process

---
 directive.cpp | 10 ++++++++--
 export.cpp    |  2 ++
 main.cpp      |  5 +++++
 pass_one.cpp  | 19 +++++++++++++++++++
 pass_one.h    |  1 +
 preop.cpp     | 12 ++++++++++++
 preop.h       |  1 +
 storage.cpp   |  3 +++
 8 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 424267f..7406986 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -551,8 +551,10 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 		if (word[0] == '"')
 		{
 			char *next = next_expr (word, EXPR_DELIMS);
-			if (*next != '\0') 
+			if (*next != '\0') {
+				session = StartSPASMErrorSession();
 				goto echo_error;
+			}
 			
 			reduce_string (word);
 			if (type == ES_ECHO)
@@ -684,8 +686,12 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 					
 					if (*(name_end - 1) == '(') name_end--;
 					name_end = parse_args (name_end, define, &args);
-					if (!name_end)
+					if (!name_end) {
+						ReplaySPASMErrorSession(session);
+						EndSPASMErrorSession(session);
+						level--;
 						return (char *) ptr;
+					}
 					
 					expr = parse_define (define);
 					if (expr != NULL)
diff --git a/export.cpp b/export.cpp
index 56535ae..5e1060f 100644
--- a/export.cpp
+++ b/export.cpp
@@ -281,6 +281,8 @@ void makeapp (const unsigned char *output_contents, DWORD size, FILE *outfile, c
 	*(name - 1) = (field_sz <= 8) ? field_sz : 8;
 	/* Only copy the part of the name defined in the size returned */
 	for (i=0; i < ((field_sz <= 8) ? field_sz : 8); i++) name[i]=buffer[i+pnt];
+	/* and leave nothing of an earlier, longer name behind it */
+	for (; i < 8; i++) name[i] = 0;
 
 #ifndef NO_APPSIGN
 /* Calculate MD5 */
diff --git a/main.cpp b/main.cpp
index e400d93..0836685 100644
--- a/main.cpp
+++ b/main.cpp
@@ -3,6 +3,7 @@
 #define __MAIN_C
 
 #include "pass_one.h"
+#include "preop.h"
 #include "pass_two.h"
 #include "opcodes.h"
 #include "storage.h"
@@ -70,6 +71,10 @@ int run_assembly()
 	output_list = NULL;
 	output_list_tail = NULL;
 
+	ClearSPASMErrorSessions ();
+	reset_preop ();
+	reset_first_pass ();
+
 	assert(curr_input_file != NULL);
 
 	//read in the input file
diff --git a/pass_one.cpp b/pass_one.cpp
index e510633..d8ee164 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -108,6 +108,25 @@ void do_listing_for_line (char *ptr) {
 }
 
 
+/*
+ * Forgets the state of an earlier assembly
+ */
+
+void reset_first_pass (void) {
+	adl_mode = false;
+	listing_width = 0;
+	last_banner = NULL;
+#ifdef USE_BUILTIN_FCREATE
+	int buf;
+	for (buf = 0; buf < MAX_BUFFERS; buf++) {
+		if (fcreate_bufs[buf] != NULL)
+			eb_free (fcreate_bufs[buf]);
+		fcreate_bufs[buf] = NULL;
+	}
+#endif
+}
+
+
 /*
  * Goes through the first
  * pass on an mmapped file
diff --git a/pass_one.h b/pass_one.h
index a54cf62..83f8390 100644
--- a/pass_one.h
+++ b/pass_one.h
@@ -7,6 +7,7 @@ typedef enum {
 } suffix_type;
 
 void run_first_pass (char *ptr);
+void reset_first_pass (void);
 char *run_first_pass_line (char *ptr);
 int write_out (int);
 char *handle_opcode_or_macro (char *ptr);
diff --git a/preop.cpp b/preop.cpp
index 67a353f..c81c818 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -23,6 +23,16 @@ static define_t *last_define = NULL;
 static int nIfLevel = 0;
 static bool fInMacro = false;
 
+/*
+ * Forgets the state of an earlier assembly
+ */
+
+void reset_preop (void) {
+	last_define = NULL;
+	nIfLevel = 0;
+	fInMacro = false;
+}
+
 /*
  * Handles a preop, returns the new
  * location in the file
@@ -173,6 +183,8 @@ char *handle_preop (char *ptr) {
 
 			name_end = skip_to_name_end (ptr);
 			name = checked_strndup (ptr, name_end - ptr);
+			if (last_define != NULL && search_defines (name) == last_define)
+				last_define = NULL;
 			remove_define (name);
 			free (name);
 			ptr = name_end;
diff --git a/preop.h b/preop.h
index 258127e..08fe9aa 100644
--- a/preop.h
+++ b/preop.h
@@ -3,6 +3,7 @@
 
 #include "storage.h"
 char *handle_preop (char *ptr);
+void reset_preop (void);
 char *parse_arg_defs (const char *ptr, define_t *define);
 
 #endif
diff --git a/storage.cpp b/storage.cpp
index 9d91108..9a420ac 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -228,6 +228,9 @@ EXPORT void free_storage() {
 	list_free(input_files, true, NULL);
 	input_files = NULL;
 
+	while (arg_list)
+		remove_arg_set(arg_list);
+
 	hash_free(label_table);
 	label_table = NULL;
 
-- 
2.43.0


From ce62ea06def93c5da29a585a71d758986d8ead5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:37 +0000
Subject: [PATCH 19/48] fix: a source that ends inside .echo, wr(), clr(),
 buf() or run() is not read past its end

---
 directive.cpp | 4 +++-
 pass_one.cpp  | 8 ++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 7406986..9b502d9 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -252,7 +252,9 @@ addinstr_fail:
 				if ((++ptr)[0] == '>')
 					target_format[0] = 'a';
 
-				ptr = skip_whitespace (ptr + 1);
+				if (*ptr != '\0')
+					ptr++;
+				ptr = skip_whitespace (ptr);
 				if (is_end_of_code_line (ptr)) {
 					SetLastSPASMError(SPASM_ERR_FILENAME_EXPECTED);
 					return NULL;
diff --git a/pass_one.cpp b/pass_one.cpp
index d8ee164..31d645f 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -362,7 +362,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			} else {
 				SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS);
 			}
-			ptr++;
+			if (*ptr == ')') ptr++;
 		} else if (!strncasecmp (name_start, "clr", name_end - name_start) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate != NULL) {
@@ -370,7 +370,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			}
 			eb_fcreate = eb_init(128);
 			fcreate_bufs[cur_buf] = eb_fcreate;
-			ptr += 2;
+			if (*++ptr == ')') ptr++;
 		} else if (!strncasecmp (name_start, "wr", name_end - name_start) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate == NULL) {
@@ -379,7 +379,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			}
 
 			ptr = parse_emit_string(++ptr, ES_FCREATE, eb_fcreate);
-			ptr++;
+			if (*ptr == ')') ptr++;
 			eb_append(eb_fcreate, NEWLINE, strlen(NEWLINE));
 		} else if (!strncasecmp (name_start, "run", name_end - name_start) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
@@ -441,7 +441,7 @@ char *handle_opcode_or_macro (char *ptr) {
 				}
 				EndSPASMErrorSession(session);
 			}
-			ptr += 2;
+			if (*++ptr == ')') ptr++;
 		} else
 #endif
 
-- 
2.43.0


From 32d719e58d4cdcf12230f520d8f6cd207117ab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 20/48] fix: an invalid buf() operand is reported instead of
 crashing

---
 pass_one.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 31d645f..3a1a7d0 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -357,10 +357,10 @@ char *handle_opcode_or_macro (char *ptr) {
 			int value;
 			ptr++;
 			read_expr(&ptr, buf, _T(")"));
-			if (parse_num(buf, &value)) {
+			if (parse_num(buf, &value) && value >= 0 && value < MAX_BUFFERS) {
 				cur_buf = value;
 			} else {
-				SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS);
+				SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS, "buf");
 			}
 			if (*ptr == ')') ptr++;
 		} else if (!strncasecmp (name_start, "clr", name_end - name_start) && *ptr == '(') {
-- 
2.43.0


From af98350e44511d5abd72e46dc46a8ee5e1be8d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 21/48] fix: __BM_INV_RGB compared pixels with an uninitialised
 byte

---
 bitmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 2e5c7e9..e5b1ee5 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -205,7 +205,7 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 	rgbMask.rgbBlue 	= (value) & 0xFF;
 
 	bool HandleInv = false;
-	RGBQUAD rgbInv;
+	RGBQUAD rgbInv = {0, 0, 0, 0};
 	if ((value = parse_f("__BM_INV_RGB")) != -1) {
 		rgbInv.rgbRed 	= (value >> 16) & 0xFF;
 		rgbInv.rgbGreen = (value >> 8) & 0xFF;
-- 
2.43.0


From 8955085790c5511d7ea1999cef6d885d86ab3d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 22/48] fix: bitmap pixels were looked up beyond the end of the
 palette

---
 bitmap.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index e5b1ee5..1a4b8ca 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -228,7 +228,7 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 				//pOutput[r->bottom - r->top - 1 - row][col]
 				OUTPUT_ACCESS(r->bottom - r->top - 1 - row, col) = 0;
 				continue;
-			} else if (_W(bi->biBitCount) < 16 || _DW(bi->biClrUsed) != 0) {
+			} else if (_W(bi->biBitCount) < 16) {
 				BYTE bMask = MASK(_W(bi->biBitCount)) << ((8 - _W(bi->biBitCount)) - (bit % 8));
 				
 				UINT iColor = 0;
@@ -373,7 +373,11 @@ void handle_bitmap(FILE *file)
 	}
 
 	// Read in the palette
-	bmiColors = (LPRGBQUAD) checked_calloc(nColors, sizeof(RGBQUAD));
+	// (a pixel can name a color beyond a short palette, that's black then)
+	DWORD nPalette = nColors;
+	if (_W(bi.biBitCount) < 16 && nPalette < (1u << _W(bi.biBitCount)))
+		nPalette = 1u << _W(bi.biBitCount);
+	bmiColors = (LPRGBQUAD) checked_calloc(nPalette, sizeof(RGBQUAD));
 	if (fread(bmiColors, sizeof(RGBQUAD), nColors, file) != nColors) {
 		show_error ("Bitmap file could not be read completely");
 		free(bmiColors);
-- 
2.43.0


From 38c9b9e60be813d061788b9cdaac767ab18097b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:28 +0000
Subject: [PATCH 23/48] fix: .echo > without a file name wrote a file named
 after the next line

---
 directive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 9b502d9..000be24 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -252,7 +252,7 @@ addinstr_fail:
 				if ((++ptr)[0] == '>')
 					target_format[0] = 'a';
 
-				if (*ptr != '\0')
+				if (!is_end_of_code_line (ptr))
 					ptr++;
 				ptr = skip_whitespace (ptr);
 				if (is_end_of_code_line (ptr)) {
-- 
2.43.0


From 5d961420d80d52794bef7c0258c702dc06a6e77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:19 +0000
Subject: [PATCH 24/48] fix: random numbers of '\#' do not depend on earlier
 assemblies in the process

---
 main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.cpp b/main.cpp
index 0836685..f59f4c1 100644
--- a/main.cpp
+++ b/main.cpp
@@ -71,6 +71,7 @@ int run_assembly()
 	output_list = NULL;
 	output_list_tail = NULL;
 
+	srand (1);
 	ClearSPASMErrorSessions ();
 	reset_preop ();
 	reset_first_pass ();
-- 
2.43.0


From 516ce112f236c2e4e15799b6b727efdc46422f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:19 +0000
Subject: [PATCH 25/48] fix: an image map with empty cells hung the assembler

---
 bitmap.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 1a4b8ca..b082463 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -441,16 +441,21 @@ void handle_bitmap(FILE *file)
 		}
 		free(fmt);
 
-		if (padding == -1) padding = 0;
+		if (padding < 0) padding = 0;
 
-		if (width == 0 && height == 0) {
-			show_error("At least either of width or height must be given for an image map");
+		if (width <= 0 || height <= 0) {
+			show_error("Width and height must be given for an image map");
 			goto map_done;
 		}
 
 		width 	= (_ZL(bi.biWidth) - (width * 2 * padding)) / width;
 		height 	= (_ZL(bi.biHeight) - (height * 2 * padding)) / height;
 
+		if (width <= 0 || height <= 0) {
+			show_error("Bitmap is too small for its image map");
+			goto map_done;
+		}
+
 		if (base_name) {
 			strcpy(suffix, "_WIDTH");
 			add_label(checked_strdup(base_name), width);
-- 
2.43.0


From e26e8d2820f587b0e9956089cce1cd41cf322e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:32 +0000
Subject: [PATCH 26/48] fix: a dot in a directory's name was taken for the
 start of the file extension

---
 export.cpp | 9 +++++----
 utils.cpp  | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/export.cpp b/export.cpp
index 5e1060f..c4e70a9 100644
--- a/export.cpp
+++ b/export.cpp
@@ -117,8 +117,9 @@ void write_file (const unsigned char *output_contents, int output_len, const cha
 
 
 	//get the type from the extension of the output filename
-	for (i = strlen (output_filename); output_filename[i] != '.' && i; i--);
-	if (i != 0) {
+	//(a dot in a directory's name doesn't start one)
+	for (i = strlen (output_filename); output_filename[i] != '.' && output_filename[i] != '\\' && output_filename[i] != '/' && i; i--);
+	if (i != 0 && output_filename[i] == '.') {
 		const char *ext = output_filename + i + 1;
 
 		int type;
@@ -159,8 +160,8 @@ void write_file (const unsigned char *output_contents, int output_len, const cha
 	char prgmname[MAX_PATH];
 	strcpy(prgmname, output_filename);
 	
-	for (i = strlen (prgmname); prgmname[i] != '.' && i; i--);
-	if (i != 0)
+	for (i = strlen (prgmname); prgmname[i] != '.' && prgmname[i] != '\\' && prgmname[i] != '/' && i; i--);
+	if (i != 0 && prgmname[i] == '.')
 		prgmname[i] = '\0';
 
 	//then decide how to write the contents
diff --git a/utils.cpp b/utils.cpp
index 351c8d6..aa05e4e 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -765,7 +765,8 @@ char *change_extension (const char *filename, const char *ext) {
 	strcpy(new_fn, filename);
 	
 	dot = strrchr(new_fn, '.');
-	if (dot != NULL) *dot = '\0';
+	//a dot in a directory's name doesn't start an extension
+	if (dot != NULL && strpbrk(dot, "/\\") == NULL) *dot = '\0';
 		
 	strcat(new_fn, ".");
 	return strcat(new_fn, ext);
-- 
2.43.0


From 0b03e1a16a6035904613a72c92cbda0ebb7213da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:55 +0000
Subject: [PATCH 27/48] fix: the name stored in an .82p file contained the
 output directory

---
 export.cpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/export.cpp b/export.cpp
index c4e70a9..6a6c17c 100644
--- a/export.cpp
+++ b/export.cpp
@@ -478,25 +478,16 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	char *namestring, progstring[3];
 	const unsigned char trailer83[] = { 0x3f, 0xd4, 0x3f, 0x30, 0x30, 0x30, 0x30, 0x3f, 0xd4 };
 	
+	// Find basename(prgmname)
+	const char *baseName = prgmname + strlen(prgmname);
+	while (baseName > prgmname && baseName[-1] != '/' && baseName[-1] != '\\')
+		baseName -= 1;
+
 	if (calc==TYPE_82P) {
 		char name_buf[256];
-		snprintf(name_buf, sizeof(name_buf), "\xdc%s", prgmname);
+		snprintf(name_buf, sizeof(name_buf), "\xdc%s", baseName);
 		namestring = checked_strdup (name_buf);
 	} else {
-		// Find basename(prgmname)
-		const char *baseName = prgmname + strlen(prgmname) - 1;
-		bool found = false;
-		while (baseName > prgmname) {
-			if (*baseName == '/' || *baseName == '\\') {
-				found = true;
-				break;
-			}
-			baseName -= 1;
-		}
-		if (found) {
-			baseName += 1;
-		}
-
 		// Use the base filename (no directory, if given) as the program name.
 		namestring = checked_strdup(baseName);
 		/* The name must be capital letters and numbers */
-- 
2.43.0


From 115b6a675dc28825c0ec6bec83810144340808a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:27 +0000
Subject: [PATCH 28/48] fix: an unreadable getc file went unreported where
 expression errors are dropped

The errors of getc() were dropped together with those of a speculative or
ignored evaluation (conditions, eval(), .fill counts, the label file...), and
the assembler went on with 0 and a successful status. Pass errors about
unreadable files on to the enclosing session instead.
---
 errors.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/errors.cpp b/errors.cpp
index 81f58d8..ebbead1 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -235,6 +235,27 @@ void EndSPASMErrorSession(int nSession) {
 		exit(EXIT_FATAL_ERROR);
 }
 
+//A file that can't be read isn't something another pass or another way of
+//looking at the expression can put right
+static bool IsSPASMErrorFileAccess(DWORD dwError)
+{
+	return dwError == SPASM_ERR_NO_ACCESS ||
+			dwError == SPASM_ERR_FILE_NOT_FOUND;
+}
+
+static bool IsErrorTextPending(const LPERRORINSTANCE lpError)
+{
+	for (const list_t *pList = (list_t *) g_ErrorList; pList != NULL; pList = pList->next)
+	{
+		const LPERRORINSTANCE lpOther = (LPERRORINSTANCE) pList->data;
+		if (lpOther != lpError && strcmp(lpOther->lpszErrorText, lpError->lpszErrorText) == 0)
+		{
+			return true;
+		}
+	}
+	return false;
+}
+
 //returns the number of fatal errors
 int CleanupSPASMErrorSession(int nSession)
 {
@@ -246,6 +267,17 @@ int CleanupSPASMErrorSession(int nSession)
 	{
 		LPERRORINSTANCE lpErr = (LPERRORINSTANCE) pList->data;
 
+		//The caller drops the errors of this session, but the value it got
+		//for a file it couldn't read is wrong: pass the error on (once)
+		if (nSession > 1 && !lpErr->fIsWarning &&
+			IsSPASMErrorFileAccess(lpErr->dwErrorCode) && !IsErrorTextPending(lpErr))
+		{
+			lpErr->nSession--;
+			pPrev = pList;
+			pList = pList->next;
+			continue;
+		}
+
 		if (pPrev == NULL)
 		{
 			g_ErrorList = (errorlist_t *) pList->next;
-- 
2.43.0


From 313ee2726ec5190c7eaf496b6127f1531963fc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:41 +0000
Subject: [PATCH 29/48] fix: getc() was 0 in an expression that waits for the
 second pass

---
 utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index aa05e4e..d269d7a 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -835,8 +835,12 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 		if (name_len > 0) {
 			name = checked_strndup (expr, name_len);
 			
+			//getc() is left for the parser: its placeholder define isn't its value
+			if (!strcasecmp (name, "getc") && expr[name_len] == '(') {
+				eb_append (new_expr, name, name_len);
+				expr += name_len;
 			//if it's a define, recursively expand its contents
-			if ((define = search_defines (name, search_local)) && define->contents != NULL) {
+			} else if ((define = search_defines (name, search_local)) && define->contents != NULL) {
 				list_t *args = NULL;
 
 				if (define->num_args > 0) {
-- 
2.43.0


From 9aa0579a898a29fe553b09befba6bf80e0be7381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:31 +0000
Subject: [PATCH 30/48] fix: the label file was emptied before the files its
 values depend on were read

---
 storage.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/storage.cpp b/storage.cpp
index 9a420ac..53933d5 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -45,6 +45,20 @@ void write_labels (char *filename) {
 	list_t label_list;
 	list_t *node;
 
+	//a define may depend on a file (getc), so the label file is only
+	//opened once all values are there
+	label_list.next = NULL;
+	int session = StartSPASMErrorSession();
+	hash_enum (label_table, write_labels_callback, &label_list);
+	hash_enum (define_table, write_defines_callback, &label_list);
+	bool values_failed = IsErrorInSPASMErrorSession(session, SPASM_ERR_NO_ACCESS)
+		|| IsErrorInSPASMErrorSession(session, SPASM_ERR_FILE_NOT_FOUND);
+	EndSPASMErrorSession(session);
+	if (values_failed) {
+		list_free (label_list.next, true, NULL);
+		return;
+	}
+
 	symtable = fopen (filename, "w");
 	if (!symtable) {
 		int error = errno;
@@ -52,6 +66,7 @@ void write_labels (char *filename) {
 			SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, filename);
 		else
 			SetLastSPASMError(SPASM_ERR_NO_ACCESS, filename);
+		list_free (label_list.next, true, NULL);
 		return;
 	}
 
@@ -59,12 +74,6 @@ void write_labels (char *filename) {
 	hdr_node.name = checked_strdup("#header");
 	
 	label_list.data = &hdr_node;
-	label_list.next = NULL;
-	
-	int session = StartSPASMErrorSession();
-	hash_enum (label_table, write_labels_callback, &label_list);
-	hash_enum (define_table, write_defines_callback, &label_list);
-	EndSPASMErrorSession(session);
 	
 	node = label_list.next;
 	int index = 0;
-- 
2.43.0


From ab84cfac2b0d8a56af3cd84f4f55b2186c3a9eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:20 +0000
Subject: [PATCH 31/48] fix: a #comment block that is never closed was not
 reported

---
 preop.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index c81c818..0c91a44 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -192,9 +192,7 @@ char *handle_preop (char *ptr) {
 		}
 		case 10: //COMMENT
 		{
-			int session = StartSPASMErrorSession();
 			ptr = skip_until (ptr, &line_num, 1, "#endcomment");
-			EndSPASMErrorSession(session);
 			break;
 		}
 		case 12: //MACRO
-- 
2.43.0


From f2d7ce2c7bcf5558f86f8bca6a22b6744d0158c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:09 +0000
Subject: [PATCH 32/48] fix: an unknown option ended the run with the status of
 a run with warnings

---
 main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index f59f4c1..547bd91 100644
--- a/main.cpp
+++ b/main.cpp
@@ -425,7 +425,7 @@ int main (int argc, char **argv)
 					FreeConsole();
 					return _AtlModule.WinMain(SW_HIDE);
 #else
-					return 1;
+					return EXIT_FATAL_ERROR;
 #endif
 				}
 				
-- 
2.43.0


From 9e43e524014304f615a1cc5c2feb257d43a0704d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:27 +0000
Subject: [PATCH 33/48] fix: -D without a value took the next argument or
 environment variable as the value

---
 main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index 547bd91..a1d931c 100644
--- a/main.cpp
+++ b/main.cpp
@@ -383,7 +383,8 @@ int main (int argc, char **argv)
 				read_expr (&ptr, name, "=");
 
 				define = add_define (checked_strdup (name), NULL);
-				if (*skip_whitespace (++ptr) != '\0')
+				//without a value there is nothing behind the name
+				if (*ptr != '\0' && *skip_whitespace (++ptr) != '\0')
 					define->contents = checked_strdup (ptr);
 				else
 					set_define (define, "1", 1, false);
-- 
2.43.0


From 540784db5d360265365accde8c95c3ec2aeddae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:35 +0000
Subject: [PATCH 34/48] fix: keep the whole text of a diagnostic when the path
 in it is long

---
 errors.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/errors.cpp b/errors.cpp
index ebbead1..f60e0a3 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -202,8 +202,8 @@ void AddSPASMErrorSessionAnnotation(int nSession, LPCTSTR lpszFormat, ...)
 	va_list valist;
 	va_start(valist, lpszFormat);
 
-	TCHAR szBuffer[256];
-	TCHAR szDescription[128] = _T("An error occurred");
+	TCHAR szBuffer[2 * MAX_PATH + 256];
+	TCHAR szDescription[MAX_PATH + 128] = _T("An error occurred");
 
 	StringCchVPrintf(szDescription, ARRAYSIZE(szDescription), lpszFormat, valist);
 	StringCchPrintf(szBuffer, ARRAYSIZE(szBuffer), _T("%s:%d: %s"),
@@ -377,8 +377,8 @@ static void SetLastSPASMProblem(DWORD dwErrorCode, bool fIsWarning, va_list vali
 	//lpErr->fSuppressErrors = suppress_errors;
 	lpErr->fIsWarning = fIsWarning;
 	
-	TCHAR szBuffer[256];
-	TCHAR szDescription[128] = _T("An error occurred");
+	TCHAR szBuffer[2 * MAX_PATH + 256];
+	TCHAR szDescription[MAX_PATH + 128] = _T("An error occurred");
 
 	for (int i = 0; i < ARRAYSIZE(g_ErrorCodes); i++)
 	{
-- 
2.43.0


From 834632e27020e31cb14e3ea25b9168afd3aa90aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:00 +0000
Subject: [PATCH 35/48] fix: assemble the contents of an include that were
 looked at, not a second version of the file

---
 preop.cpp |  6 +++++-
 utils.cpp | 14 +++++++++++---
 utils.h   |  3 +++
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index 0c91a44..186eccf 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -517,9 +517,13 @@ static char *handle_preop_include (char *ptr)
 	}
 	else
 	{
+#ifdef USE_MEMORY_MAPPED_FILES
 		fclose (file);
-		
 		input_contents = get_file_contents (file_path);
+#else
+		//what was looked at is what gets assembled, even if the file is replaced now
+		input_contents = read_file_contents (file);
+#endif
 		if (!input_contents) {
 			show_error ("Couldn't open #included file %s", file_path);
 			free (file_path);
diff --git a/utils.cpp b/utils.cpp
index d269d7a..4d193fe 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -681,8 +681,6 @@ char *get_file_contents (const char *filename) {
 	return (char *) lpData;
 #else
 	FILE *file;
-	char *buffer;
-	size_t size, read_size;
 
 	// first try to open it
 	file = fopen (filename, "rb");
@@ -690,6 +688,16 @@ char *get_file_contents (const char *filename) {
 	if (!file)
 		return NULL;
 
+	return read_file_contents (file);
+#endif
+}
+
+#ifndef USE_MEMORY_MAPPED_FILES
+/* reads a whole open file, and closes it */
+char *read_file_contents (FILE *file) {
+	char *buffer;
+	size_t size, read_size;
+
 	// find file size (Spencer says it's not a hack)
 	long end_pos;
 	if (fseek (file, 0, SEEK_END) != 0 || (end_pos = ftell (file)) < 0 || fseek (file, 0, SEEK_SET) != 0) {
@@ -737,8 +745,8 @@ char *get_file_contents (const char *filename) {
 
 	buffer[size] = '\0';
 	return buffer;
-#endif
 }
+#endif
 
 
 /* 
diff --git a/utils.h b/utils.h
index 8deedb5..d1b60e3 100644
--- a/utils.h
+++ b/utils.h
@@ -42,6 +42,9 @@ char *fix_filename (char *filename);
 bool is_abs_path(const char *filename);
 char *strup (const char *input);
 char *get_file_contents (const char *filename);
+#ifndef USE_MEMORY_MAPPED_FILES
+char *read_file_contents (FILE *file);
+#endif
 void release_file_contents(char *contents);
 char *change_extension (const char *filename, const char *new_ext);
 bool define_with_value (const char *name, const int value);
-- 
2.43.0


From b177cb43d2b6050693e94b6ec2905f65720e57b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:14 +0000
Subject: [PATCH 36/48] fix: a directory with the name of an include doesn't
 hide the file further along the search path

---
 preop.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index 186eccf..421d00f 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -400,6 +400,21 @@ char *handle_preop_define (const char *ptr) {
 	return (char *) ptr;
 }
 
+#ifndef WIN32
+#include <sys/stat.h>
+
+/*
+ * Like access, but a directory isn't a file that can be read
+ */
+
+static int access_file (const char *path, int mode) {
+	struct stat info;
+	if (stat (path, &info) == 0 && S_ISDIR (info.st_mode))
+		return -1;
+	return access (path, mode);
+}
+#endif
+
 /*
  * Given a filename (which may be surrounded in quotes), return
  * an allocated full path of that filename
@@ -412,7 +427,7 @@ char *full_path (const char *filename) {
 #ifdef WIN32
 	if (is_abs_path(filename) && (GetFileAttributes(filename) != 0xFFFFFFFF))
 #else
-	if (is_abs_path(filename) && (access (filename, R_OK) == 0))
+	if (is_abs_path(filename) && (access_file (filename, R_OK) == 0))
 #endif
 		return checked_strdup (filename);
 	
@@ -432,13 +447,13 @@ char *full_path (const char *filename) {
 #ifdef WIN32
 	} while (GetFileAttributes(full_path) == 0xFFFFFFFF && dir);
 #else
-	} while (access (full_path, R_OK) && dir);
+	} while (access_file (full_path, R_OK) && dir);
 #endif
 
 #ifdef WIN32
 	if (GetFileAttributes(full_path) != 0xFFFFFFFF)
 #else
-	if (access (full_path, R_OK) == 0)
+	if (access_file (full_path, R_OK) == 0)
 #endif
 		return full_path;
 	
-- 
2.43.0


From b02fa4084662fa37cadeb51f239b29f17ec0ab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:02 +0000
Subject: [PATCH 37/48] fix: -I or -D with nothing behind it ended the run with
 status 0 after saying so

---
 main.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.cpp b/main.cpp
index a1d931c..0c54a59 100644
--- a/main.cpp
+++ b/main.cpp
@@ -340,7 +340,7 @@ int main (int argc, char **argv)
 				} else {
 					if (curr_arg >= argc - 1) {
 						printf ("%s used without include path\n", argv[curr_arg]);
-						break;
+						return EXIT_FATAL_ERROR;
 					}
 					
 					dir = checked_strdup (argv[++curr_arg]);
@@ -373,8 +373,8 @@ int main (int argc, char **argv)
 					ptr = &argv[curr_arg][2];
 				} else {
 					if (curr_arg >= argc - 1) {
-						printf ("%s used without define name", argv[curr_arg]);
-						break;
+						printf ("%s used without define name\n", argv[curr_arg]);
+						return EXIT_FATAL_ERROR;
 					}
 					
 					ptr = argv[++curr_arg];
-- 
2.43.0


From 245f08dddb0251a2c9629dd694689d2efd2baa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:04 +0000
Subject: [PATCH 38/48] fix: append the whole text of a redirected .echo in a
 single write

A text longer than the buffer of the stream was written in pieces, so the
texts of assemblers that append to one file at the same time were torn
into each other.
---
 directive.cpp | 22 +++++++++++++++++++---
 directive.h   |  1 +
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 000be24..1e0d1ee 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -282,11 +282,20 @@ addinstr_fail:
 				}
 
 				//if the output's redirected to a file, process it now
+				expand_buf_t *echo = eb_init(256);
 				WORD orig_attributes = save_console_attributes();
 				set_console_attributes (COLOR_GREEN);
-				ptr = parse_emit_string (ptr, ES_ECHO, echo_target);
+				ptr = parse_emit_string (ptr, ES_ECHO_FILE, echo);
 				restore_console_attributes(orig_attributes);
 
+				//in a single write, so that the texts that several assemblers
+				//append to one file at the same time aren't torn into each other
+				char *echo_string = eb_extract(echo);
+				eb_free(echo);
+				setvbuf (echo_target, NULL, _IONBF, 0);
+				fwrite (echo_string, 1, strlen (echo_string), echo_target);
+				free (echo_string);
+
 				bool write_failed = ferror (echo_target) != 0;
 				if (fclose (echo_target) != 0)
 					write_failed = true;
@@ -566,7 +575,7 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 					fprintf ((FILE *) echo_target, "%s", word);
 				}
 			}
-			else if (type == ES_FCREATE) {
+			else if (type == ES_FCREATE || type == ES_ECHO_FILE) {
 				eb_append((expand_buf_t *) echo_target, word, strlen(word));
 			} else {
 				int i;
@@ -595,15 +604,16 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 						}
 						break;
 					}
+					case ES_ECHO_FILE:
 #ifdef USE_BUILTIN_FCREATE
 					case ES_FCREATE:
+#endif
 					{
 						char buffer[256];
 						sprintf_s(buffer, "%d", value);
 						eb_append((expand_buf_t *) echo_target, buffer, -1);
 						break;
 					}
-#endif
 					case ES_BYTE: 
 					{
 						write_arg(value, ARG_NUM_8, 0, 0);
@@ -634,6 +644,7 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 				switch (type) 
 				{
 				case ES_ECHO:
+				case ES_ECHO_FILE:
 					break;
 				case ES_BYTE: 
 					{
@@ -752,6 +763,11 @@ echo_error:
 							}
 							break;
 						}
+					case ES_ECHO_FILE:
+						{
+							eb_append((expand_buf_t *) echo_target, "(error)", -1);
+							break;
+						}
 					case ES_FCREATE:
 						{
 							SetLastSPASMError(SPASM_ERR_LABEL_NOT_FOUND, word);
diff --git a/directive.h b/directive.h
index 7ca3f2e..7cbf299 100644
--- a/directive.h
+++ b/directive.h
@@ -6,6 +6,7 @@ typedef enum _ES_TYPE {
 	ES_WORD,
 	ES_LONG,
 	ES_ECHO,
+	ES_ECHO_FILE,
 	ES_FCREATE,
 	ES_NONE,
 } ES_TYPE;
-- 
2.43.0


From c6acb13b44e5f54be978d0fbe55a2e6dceba66b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:00 +0000
Subject: [PATCH 39/48] fix: the library kept every file name it was ever given

---
 dll.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dll.cpp b/dll.cpp
index a0fdce8..318cdea 100644
--- a/dll.cpp
+++ b/dll.cpp
@@ -66,7 +66,9 @@ extern "C"
 
 	__declspec (dllexport) int __stdcall 
 		SetInputFile(const char *lpFilename) {
+		char *previous = curr_input_file;
 		curr_input_file = checked_strdup(lpFilename); 
+		free(previous);
 	#ifdef LOG
 		fprintf(logfile, "SetInputFile: %s\n", curr_input_file);
 		fflush(logfile);
@@ -76,7 +78,9 @@ extern "C"
 
 	__declspec (dllexport) int __stdcall 
 	SetOutputFile(const char *lpFilename) {
+		char *previous = output_filename;
 		output_filename = checked_strdup(lpFilename);
+		free(previous);
 	#ifdef LOG
 		fprintf(logfile, "SetInputFile: %s\n", output_filename);
 		fflush(logfile);
-- 
2.43.0


From 6825122cb4d039a533501ad805e23eb37146ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:00 +0000
Subject: [PATCH 40/48] fix: a library run without an input or output file
 crashed instead of failing

---
 dll.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/dll.cpp b/dll.cpp
index 318cdea..e797353 100644
--- a/dll.cpp
+++ b/dll.cpp
@@ -143,6 +143,18 @@ extern "C"
 		int result;
 
 		mode = MODE_NORMAL;
+		printf("Input file: %s\n", curr_input_file ? curr_input_file : "(none)");
+		printf("Output file: %s\n", output_filename ? output_filename : "(none)");
+	
+		if (curr_input_file == NULL || output_filename == NULL) {
+	#ifdef LOG
+			fprintf(logfile, "Unable to assemble file\n");
+			fflush(logfile);
+	#endif
+			return EXIT_FATAL_ERROR;
+		}
+
+		//this records the input file as the place of the defines
 		init_storage();
 	
 		while (list) {
@@ -152,23 +164,12 @@ extern "C"
 			list = list->next;
 		}
 	
-		printf("Input file: %s\n", curr_input_file);
-		printf("Output file: %s\n", output_filename);
-	
 		list = include_dirs;
 		while (list) {
 			printf("Include dir: %s\n", (char *) list->data);
 			list = list->next;
 		}
 	
-		if (curr_input_file == NULL || output_filename == NULL) {
-	#ifdef LOG
-			fprintf(logfile, "Unable to assemble file\n");
-			fflush(logfile);
-	#endif
-			return EXIT_FATAL_ERROR;
-		}
-
 		//bytes that .seek skips must not show what an earlier run wrote there
 		memset(output_contents, 0, output_buf_size);
 		result = run_assembly();
-- 
2.43.0


From f1e5817a91839cda9d14cc7e6ebc455e15a2bdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:00 +0000
Subject: [PATCH 41/48] fix: the name of a redefined or conflicting label or
 define was never released

---
 storage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/storage.cpp b/storage.cpp
index 53933d5..e5a12c2 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -305,6 +305,7 @@ define_t *add_define (char *name, bool *redefined, bool search_local) {
 			printf ("previous definition of '%s' was here\n", name);
 			restore_console_attributes(attr);
 		//}
+		free(name);
 		return NULL;
 	}
 	
@@ -595,6 +596,7 @@ label_t *add_label (char *name, int value) {
 			printf ("previous definition of '%s' was here\n", name);
 			restore_console_attributes(attr);
 		//}
+		free(name);
 		return NULL;
 	}
 	
@@ -608,6 +610,7 @@ label_t *add_label (char *name, int value) {
 			printf ("previous definition of '%s' was here\n", name);
 			restore_console_attributes(attr);
 		}
+		free(name);
 	} else {
 		new_label = (label_t *)checked_malloc (sizeof (label_t));
 		
-- 
2.43.0


From 2c9f84e2a07dcf55f8f56caf26a0d1107eb7a59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:00 +0000
Subject: [PATCH 42/48] fix: what a rejected program had saved for the second
 pass was never released

---
 main.cpp     |  1 +
 pass_two.cpp | 24 ++++++++++++++++++++++++
 pass_two.h   |  1 +
 3 files changed, 26 insertions(+)

diff --git a/main.cpp b/main.cpp
index 0c54a59..f334cf4 100644
--- a/main.cpp
+++ b/main.cpp
@@ -145,6 +145,7 @@ int run_assembly()
 			eb_free(listing_buf);
 			listing_buf = NULL;
 		}
+		discard_second_pass();
 		list_free(input_files, true, NULL);
 		input_files = NULL;
 		return EXIT_FATAL_ERROR;
diff --git a/pass_two.cpp b/pass_two.cpp
index 945019b..372808d 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -242,6 +242,30 @@ void run_second_pass () {
 }
 
 
+/*
+ * Releases what was saved for the
+ * second pass without running it
+ */
+
+void discard_second_pass () {
+	while (expr_list) {
+		expr_t *next = expr_list->next;
+		free (expr_list->expr);
+		free (expr_list);
+		expr_list = next;
+	}
+	expr_list_tail = NULL;
+
+	while (output_list) {
+		output_t *next = output_list->next;
+		free (output_list->expr);
+		free (output_list);
+		output_list = next;
+	}
+	output_list_tail = NULL;
+}
+
+
 /*
  * Writes an argument
  * directly to the file,
diff --git a/pass_two.h b/pass_two.h
index 4fb0f11..50894d6 100644
--- a/pass_two.h
+++ b/pass_two.h
@@ -44,6 +44,7 @@ typedef struct output {
 void add_pass_two_expr (char *expr, arg_type type, int inst_size, int or_value);
 void add_pass_two_output (char *expr, output_type type);
 void run_second_pass ();
+void discard_second_pass ();
 void write_arg (int value, arg_type type, int inst_size, int or_value);
 
 #endif
-- 
2.43.0


From 4217de414846f5fbdbde41a6941dc86b2b51f1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:00 +0000
Subject: [PATCH 43/48] fix: signing an application never released the hash
 number

---
 export.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/export.cpp b/export.cpp
index 6a6c17c..bcb4d68 100644
--- a/export.cpp
+++ b/export.cpp
@@ -462,6 +462,7 @@ int siggen(const unsigned char* hashbuf, unsigned char* sigbuf, int* outf) {
 	mpz_export(sigbuf, NULL, -1, 1, -1, 0, result);
 	
 /* Clean Up */
+	mpz_clear(mhash);
 	mpz_clear(p);
 	mpz_clear(q);
 	mpz_clear(r);
-- 
2.43.0


From 5f207125a2a5648816695acaea15bf6ca4334b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:54 +0000
Subject: [PATCH 44/48] fix: .option with the name of a label crashed

---
 directive.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/directive.cpp b/directive.cpp
index 1e0d1ee..691e131 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -446,6 +446,11 @@ addinstr_fail:
 				strcat (strcpy (define_name, "__"), name);
 
 				define = add_define (define_name, NULL);
+				//a label can have the name already, which has been reported
+				if (define == NULL) {
+					free(expr);
+					return NULL;
+				}
 				set_define (define, expr, -1, false);
 				free(expr);
 			}
-- 
2.43.0


From 788a8161d32c9318c3d09cf4c17dc0990f2504f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:54 +0000
Subject: [PATCH 45/48] fix: -D without a name in its value crashed

---
 main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.cpp b/main.cpp
index f334cf4..2e333d0 100644
--- a/main.cpp
+++ b/main.cpp
@@ -384,6 +384,10 @@ int main (int argc, char **argv)
 				read_expr (&ptr, name, "=");
 
 				define = add_define (checked_strdup (name), NULL);
+				if (define == NULL) {
+					printf ("-D used without define name\n");
+					return EXIT_FATAL_ERROR;
+				}
 				//without a value there is nothing behind the name
 				if (*ptr != '\0' && *skip_whitespace (++ptr) != '\0')
 					define->contents = checked_strdup (ptr);
-- 
2.43.0


From 54df6f9278ffe127f45c5c0bf556810fa87b7122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:03 +0000
Subject: [PATCH 46/48] fix: getc() with a file name given by a #define looked
 for a name with quotes in it

---
 parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index efd92c9..5be6921 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -360,7 +360,7 @@ static const char *parse_single_num (const char *expr, int *value) {
 						// Is the filename given a macro?
 						if ((define = search_defines (filename)))
 						{
-							strncpy (filename, define->contents, sizeof (filename));
+							strncpy (filename, skip_whitespace (define->contents), sizeof (filename));
 						}
 
 						read_expr (&expr, parse_buf, ",");
-- 
2.43.0


From f216f4d7782d7ee91ce3f581bcd6d67f7ec73fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:21 +0000
Subject: [PATCH 47/48] fix: .echo >"file" without a space after > wrote a file
 named after the rest of the source

---
 directive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 691e131..d993bd6 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -252,7 +252,7 @@ addinstr_fail:
 				if ((++ptr)[0] == '>')
 					target_format[0] = 'a';
 
-				if (!is_end_of_code_line (ptr))
+				if (*ptr != '"' && !is_end_of_code_line (ptr))
 					ptr++;
 				ptr = skip_whitespace (ptr);
 				if (is_end_of_code_line (ptr)) {
-- 
2.43.0


From 1d38a3fd5eb73e67963126bd9c37e77281655d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:20 +0000
Subject: [PATCH 48/48] fix: keep console output out of the products when
 stdout or stderr is closed

A standard descriptor that is closed at the start was given to the next file
the assembler opened. With stdout closed the image became descriptor 1, and
warnings printed while it was being written flushed the collected console
text into it.
---
 main.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/main.cpp b/main.cpp
index 2e333d0..f8e3719 100644
--- a/main.cpp
+++ b/main.cpp
@@ -13,6 +13,12 @@
 #include "errors.h"
 #include "Module.h"
 
+#ifndef _WIN32
+#include <errno.h>
+#include <fcntl.h>
+#include <unistd.h>
+#endif
+
 #define LISTING_BUF_SIZE 65536	//initial size of buffer for output listing
 
 void write_file (const unsigned char *, int, const char *);
@@ -276,6 +282,15 @@ int CALLBACK WinMain(HINSTANCE hInst, HINSTANCE	 hPrev, LPSTR lpCommandLine, int
 #else
 int main (int argc, char **argv)
 {
+#ifndef _WIN32
+	//a standard descriptor that is closed would be given to one of the files opened below,
+	//and messages printed while that file is open would end up in it
+	for (int fd = 0; fd <= 2; fd++) {
+		if (fcntl (fd, F_GETFD) == -1 && errno == EBADF)
+			open ("/dev/null", O_RDWR);
+	}
+#endif
+
 	int curr_arg = 1;
 	bool case_sensitive = false;
 	bool is_storage_initialized = false;
-- 
2.43.0

