From 0430c767aa32a2f3c79e10117377bb780cddb7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 01/14] fix: count U+10FFFF among the character values

The arrays indexed by character value had no element for U+10FFFF, so a text
holding it was read and written past their end.
---
 src/text.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text.h b/src/text.h
index a82179b..3e5bdfe 100644
--- a/src/text.h
+++ b/src/text.h
@@ -53,7 +53,7 @@ typedef uint32_t Charvalue;
 /* Technically, there are far less *scalar values* (what you and I call
  * "characters") in Unicode, but using the max number of *code points* here
  * makes the implementation simpler. See: http://www.unicode.org/glossary/ */
-#define NUM_CHARVALUES  0x10FFFF
+#define NUM_CHARVALUES  0x110000
 
 /* Maximum char size of a single char_to_string() operation, including the
  * null-terminator. It's either the largetst size of an encoded non-graphic
-- 
2.43.0


From 285d5b6867f9d7bcf0b6e9be5702ecdd67fd0e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 02/14] fix: make room for a suspect marker before a six-digit
 character code

char_to_string() wrote one byte past STRING_SIZE for a suspect non-graphic
character of plane 16.
---
 src/text.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/text.h b/src/text.h
index 3e5bdfe..0d3717c 100644
--- a/src/text.h
+++ b/src/text.h
@@ -58,9 +58,9 @@ typedef uint32_t Charvalue;
 /* Maximum char size of a single char_to_string() operation, including the
  * null-terminator. It's either the largetst size of an encoded non-graphic
  * character (this happens to be U+10FFFF) OR the size of an astral (non-BMP)
- * combining character, that combines on top of U+25CC DOTTED CIRCLE
+ * combining character, that combines on top of U+25CC DOTTED CIRCLE; both
  * WITH a suspect marker! */
-#define STRING_SIZE (max(sizeof("^◌𐇽"), sizeof("<10FFFF>")))
+#define STRING_SIZE (max(sizeof("^◌𐇽"), sizeof("^<10FFFF>")))
 
 BEGIN_ITEM(Char)
     Boolean suspect;
-- 
2.43.0


From 90b7d938782661994d32c35e6e21e9541fd860de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 03/14] build: compile as GNU C89, so that // comments are
 accepted

-std=gnu89 instead of -ansi; the object code of every file is the same.
---
 use-libocreval-internal.mk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/use-libocreval-internal.mk b/use-libocreval-internal.mk
index 92d237d..00ac46a 100644
--- a/use-libocreval-internal.mk
+++ b/use-libocreval-internal.mk
@@ -8,7 +8,7 @@ LOCAL_LINK_DIR := $(abspath $(TOP)lib)
 LIBOCREVAL = $(LOCAL_LINK_DIR)/libocreval.a
 
 # Compilation flags for all files.
-override CFLAGS += -ansi
+override CFLAGS += -std=gnu89
 # X/Open 6.0 standardizes features used in this K&R C source...
 CPPDEFINES = -D_XOPEN_SOURCE=600
 # Create dependency files.
-- 
2.43.0


From 64e2af60c460d7393867182b58953bd86c5400cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 04/14] fix: find the text of a report row whatever the width
 of its counts

---
 src/accrpt.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index 9146f66..8720ca7 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -37,8 +37,6 @@
 #define TITLE    "ocreval Accuracy Report Version " OCREVAL_VERSION "\n"
 #define DIVIDER  "-----------------------------------\n"
 
-#define CLASS_OFFSET  29
-#define CONF_OFFSET   20
 #define LINE_LENGTH   100
 
 static char line[LINE_LENGTH];
@@ -237,11 +235,14 @@ char *filename;
             while (read_two(f, &value1, &value2)) {
                 /* TODO: bug here: does not handle UTF-8 or <bracket>
                  * <escaped> or {<} properly... */
-                add_conf(accdata, &line[CONF_OFFSET], value1, value2);
+                if (!strchr(line, '{'))
+                    error_string("invalid format in", (filename ? filename : "stdin"));
+                add_conf(accdata, strchr(line, '{'), value1, value2);
             }
         if (characters > 0 && read_line(f))
             while (read_two(f, &value1, &value2)) {
-                value3 = read_char(line + CLASS_OFFSET);
+                value3 = strchr(line, '{') ? read_char(strchr(line, '{')) :
+                INVALID_CHARVALUE;
                 if (value3 == INVALID_CHARVALUE) {
                     error_string("invalid character in", (filename ? filename : "stdin"));
                 }
-- 
2.43.0


From aa6611fc6fac3d290ac3c15d9ad02f45a8a9279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:01 +0000
Subject: [PATCH 05/14] fix: count words longer than the longest length row in
 that row

---
 src/wordacc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wordacc.c b/src/wordacc.c
index 2eb744e..3e23879 100644
--- a/src/wordacc.c
+++ b/src/wordacc.c
@@ -220,7 +220,8 @@ Wac length[], occurs[];
 	missed = termtable->array[i]->wac.missed;
 	increment_wac(&wacdata.total, count, missed);
 	increment_wac(&length[0], count, missed);
-	increment_wac(&length[strlen(termtable->array[i]->key)], count, missed);
+	increment_wac(&length[min(strlen(termtable->array[i]->key),
+	MAX_WORDLENGTH)], count, missed);
 	if (occurs)
 	{
 	    increment_wac(&occurs[0], 1, (count == missed ? 1 : 0));
-- 
2.43.0


From 2affae26de1bbde225a68c6eb618d06196060bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:01 +0000
Subject: [PATCH 06/14] fix: read word accuracy reports whatever the length of
 their words and counts

---
 src/wacrpt.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/wacrpt.c b/src/wacrpt.c
index c28d5cd..88dad49 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -30,9 +30,11 @@
 #define DIVIDER  "----------------------------------------\n"
 
 #define TOTAL    " Total\n"
-#define OFFSET   29
 
-static char line[100];
+#define PCT_COLUMNS  12
+
+static char *line = NULL;
+static long line_size = 0;
 
 /**********************************************************************/
 
@@ -65,7 +67,26 @@ long count, missed;
 static Boolean read_line(f)
 FILE *f;
 {
-    return(fgets(line, sizeof(line) - 1, f) ? True : False);
+    long length = 0;
+    int c = 0;
+    while (c != '\n' && (c = fgetc(f)) != EOF)
+    {
+	if (length + 1 >= line_size)
+	    line = realloc(line, line_size += 100);
+	line[length++] = c;
+	line[length] = '\0';
+    }
+    return(length > 0 ? True : False);
+}
+/**********************************************************************/
+
+/* returns the text of a row, which follows its count, missed and %Right */
+static char *row_text()
+{
+    int offset = 0;
+    sscanf(line, "%*d %*d%n", &offset);
+    offset += PCT_COLUMNS;
+    return(strlen(line) > offset ? &line[offset] : "");
 }
 /**********************************************************************/
 
@@ -94,9 +115,9 @@ Wac wac[];
     if (read_line(f) && read_line(f))
 	while (read_two(f, &count, &missed))
 	{
-	    index = atoi(&line[OFFSET]);
+	    index = atoi(row_text());
 	    if (index == 0) {
-		if (strcmp(&line[OFFSET], TOTAL) == 0)
+		if (strcmp(row_text(), TOTAL) == 0)
 		    total_count = count;
 		else /* excess */
 		    index = MAX_OCCURRENCES + 1;
@@ -116,7 +137,7 @@ Termtable *termtable;
 	while (read_two(f, &count, &missed))
 	{
 	    line[strlen(line) - 1] = '\0';
-	    add_term(termtable, &line[OFFSET], count, missed);
+	    add_term(termtable, row_text(), count, missed);
 	}
 }
 /**********************************************************************/
-- 
2.43.0


From fc2f5b110ee9949dffc0cab825795475f61ba85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:01 +0000
Subject: [PATCH 07/14] fix: leave out a stopword listed twice only once

---
 src/nonstopacc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nonstopacc.c b/src/nonstopacc.c
index 43efa0c..fda4245 100644
--- a/src/nonstopacc.c
+++ b/src/nonstopacc.c
@@ -46,6 +46,7 @@ char *string;
     {
 	count  -= term->wac.count;
 	missed -= term->wac.missed;
+	term->wac.count = term->wac.missed = 0;
     }
 }
 /**********************************************************************/
-- 
2.43.0


From 7c8141e27ff5abb26696b977daeee0b941144ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:39 +0000
Subject: [PATCH 08/14] fix: keep a mark at the start of a line apart from what
 follows

UAX #29 (WB3a, WB4): an Extend or Format character at the start of the
text or after a newline has nothing to extend.  It was joined to the
next character (even to a newline), or lost.
---
 src/word.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/word.c b/src/word.c
index a229bbe..dfe07bb 100644
--- a/src/word.c
+++ b/src/word.c
@@ -149,6 +149,14 @@ static Char* find_next_boundary(start)
         return NULL;
     }
 
+    /* WB3, WB3a: Nothing but the rest of a CRLF is joined to a newline. */
+    left = char_property(start);
+    if (left == CR && char_property(start->next) == LF) return start->next;
+    if (left == Newline || left == CR || left == LF) return start;
+    /* WB4: There is nothing before these characters for them to extend. */
+    if (ExtendOrFormat(left)) return skip_to_end_of_extend(start);
+    left = sot;
+
     /* Loop to find the next word break. */
 
     /* WB2: Break at the start and end of text. */
-- 
2.43.0


From ca921603b5e1c3ae0e16787d7551569fac168eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:02 +0000
Subject: [PATCH 09/14] fix: refuse word accuracy reports whose lengths are out
 of range

---
 src/wacrpt.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/wacrpt.c b/src/wacrpt.c
index 88dad49..0cde073 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -107,9 +107,11 @@ long *value1, *value2;
 }
 /**********************************************************************/
 
-static long read_numbers(f, wac)
+static long read_numbers(f, wac, limit, filename)
 FILE *f;
 Wac wac[];
+long limit;
+char *filename;
 {
     long count, missed, index, total_count = 0;
     if (read_line(f) && read_line(f))
@@ -122,6 +124,9 @@ Wac wac[];
 		else /* excess */
 		    index = MAX_OCCURRENCES + 1;
 	    }
+	    if (index < 0 || index > limit)
+		error_string("invalid format in",
+		(filename ? filename : "stdin"));
 	    increment_wac(&wac[index], count, missed);
 	}
     return(total_count);
@@ -155,12 +160,15 @@ char *filename;
     read_line(f) && read_line(f))
     {
 	increment_wac(&wacdata->total, words, missed);
-	stopwords = read_numbers(f, wacdata->stopword);
-	non_stopwords = read_numbers(f, wacdata->non_stopword);
-	read_numbers(f, wacdata->distinct_non_stopword);
+	stopwords = read_numbers(f, wacdata->stopword, MAX_WORDLENGTH,
+	filename);
+	non_stopwords = read_numbers(f, wacdata->non_stopword,
+	MAX_WORDLENGTH, filename);
+	read_numbers(f, wacdata->distinct_non_stopword, MAX_OCCURRENCES + 1,
+	filename);
 	if (words > 0)
 	{
-	    read_numbers(f, wacdata->phrase);
+	    read_numbers(f, wacdata->phrase, MAX_PHRASELENGTH, filename);
 	    if (stopwords > 0)
 		read_terms(f, &wacdata->stopword_table);
 	    if (non_stopwords > 0)
-- 
2.43.0


From 3ca2679ccdd9fa0b8bc874baba28606f311283a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:02 +0000
Subject: [PATCH 10/14] fix: refuse edit operation reports whose move lengths
 are out of range

---
 src/edorpt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edorpt.c b/src/edorpt.c
index d967684..a99c103 100644
--- a/src/edorpt.c
+++ b/src/edorpt.c
@@ -78,7 +78,12 @@ char *filename;
     {
 	if (moves > 0 && read_line(f) && read_line(f) && read_line(f))
 	    while (read_two(f, &value1, &value2))
+	    {
+		if (value2 < 0 || value2 > MAX_MOVE_LENGTH)
+		    error_string("invalid format in",
+		    (filename ? filename : "stdin"));
 		edodata->moves[value2] += value1;
+	    }
     }
     else
 	error_string("invalid format in", (filename ? filename : "stdin"));
-- 
2.43.0


From 5ee1abd9008397996bfbbd8799bd5b5e658b675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:02 +0000
Subject: [PATCH 11/14] fix: refuse accuracy reports with characters beyond
 Unicode

---
 src/accrpt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index 8720ca7..1e83a34 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -163,7 +163,7 @@ char *line;
                 next_byte++;
                 int offset;
                 int ret = sscanf(next_byte, "%x%n", &value, &offset);
-                if (ret != 1) {
+                if (ret != 1 || value >= NUM_CHARVALUES) {
                     return INVALID_CHARVALUE;
                 }
                 next_byte += offset;
-- 
2.43.0


From b4a35228feefaeab6d74eaa7696e533621329e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:02 +0000
Subject: [PATCH 12/14] fix: stay within the distribution when an accuracy
 exceeds 100%

---
 src/dist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dist.c b/src/dist.c
index 0a83028..bd2c2e4 100644
--- a/src/dist.c
+++ b/src/dist.c
@@ -36,7 +36,7 @@ long count, missed;
     if (count == 0)
 	return;
     accuracy = 100.0 * (count - missed) / count;
-    for (i = 0; accuracy >= i; i++)
+    for (i = 0; i <= 100 && accuracy >= i; i++)
 	dist->count[i] += count;
     dist->total_count += count;
 }
-- 
2.43.0


From a072b10de22415d23a05c68d1d19cf6b3879f0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:11 +0000
Subject: [PATCH 13/14] fix: accept more than 32767 arguments

---
 src/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.c b/src/util.c
index b946bc2..5f95923 100644
--- a/src/util.c
+++ b/src/util.c
@@ -217,7 +217,7 @@ int *argc;
 char *argv[], *usage;
 Option option[];
 {
-    short i, j = 0;
+    int i, j = 0;
     if (*argc == 1 && usage_when_no_args)
 	show_usage(usage);
     for (i = 1; i < *argc; i++)
-- 
2.43.0


From cfcb3949a4eef2b288516c44da380861a360e67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:12 +0000
Subject: [PATCH 14/14] fix: order confusions whose counts differ by 2^31 or
 more

---
 src/accrpt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index 1e83a34..6481366 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -316,9 +316,9 @@ static int compare_conf(conf1, conf2)
 Conf *conf1, *conf2;
 {
     if (conf1->errors != conf2->errors)
-        return(conf2->errors - conf1->errors);
+        return(conf2->errors < conf1->errors ? -1 : 1);
     if (conf1->marked != conf2->marked)
-        return(conf2->marked - conf1->marked);
+        return(conf2->marked < conf1->marked ? -1 : 1);
     return(ustrcmp(conf1->key, conf2->key));
 }
 /**********************************************************************/
-- 
2.43.0

