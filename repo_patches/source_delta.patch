From 66bb6f8c4505870afaa2e0393bdc02e4dcf42035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 01/67] fix: readers of basic items report the end of the input

osl_util_read_int, _string, _line and _tag dereferenced NULL when the file
ended or failed before the expected item, and _tag ignored a tag on a last
line without newline.
---
 source/util.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/util.c b/source/util.c
index 9e08028..eb81adb 100644
--- a/source/util.c
+++ b/source/util.c
@@ -140,7 +140,7 @@ int osl_util_read_int(FILE* file, char** str) {
   if (file != NULL) {
     // Parse from a file.
     start = osl_util_skip_blank_and_comments(file, s);
-    if (sscanf(start, " %d", &res) != 1)
+    if (start == NULL || sscanf(start, " %d", &res) != 1)
       OSL_error("an int was expected");
   } else {
     // Parse from a string.
@@ -180,7 +180,7 @@ char* osl_util_read_string(FILE* file, char** str) {
   if (file != NULL) {
     // Parse from a file.
     start = osl_util_skip_blank_and_comments(file, s);
-    if (sscanf(start, " %s", res) != 1)
+    if (start == NULL || sscanf(start, " %s", res) != 1)
       OSL_error("a string was expected");
   } else {
     // Parse from a string.
@@ -223,6 +223,8 @@ char* osl_util_read_line(FILE* file, char** str) {
   if (file != NULL) {
     // Parse from a file.
     start = osl_util_skip_blank_and_comments(file, s);
+    if (start == NULL)
+      OSL_error("a line was expected");
     while (*start && *start != '\n' && *start != '#' && i < OSL_MAX_STRING)
       res[i++] = *start++;
   } else {
@@ -268,7 +270,7 @@ char* osl_util_read_tag(FILE* file, char** str) {
   }
 
   // If the end of the input has been reached, return NULL.
-  if (((file != NULL) && (feof(file))) || ((str != NULL) && (**str == '\0')))
+  if ((*str == NULL) || (**str == '\0'))
     return NULL;
 
   // Pass the starting '<'.
-- 
2.43.0


From 25f0d2987529888cd814e1ab27f7cd3955c1878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 02/67] fix: osl_util_read_uptoflag stops on a read error

It only checked for the end of the file, so that a read error made it loop and
allocate for ever.
---
 source/util.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/util.c b/source/util.c
index eb81adb..0a88c65 100644
--- a/source/util.c
+++ b/source/util.c
@@ -319,6 +319,7 @@ char* osl_util_read_uptoflag(FILE* file, char** str, const char* flag) {
   size_t nb_chars = 0;
   size_t lenflag = strlen(flag), lenstr;
   int flag_found = 0;
+  int c;
   char* res;
 
   if ((file != NULL && str != NULL) || (file == NULL && str == NULL))
@@ -328,9 +329,11 @@ char* osl_util_read_uptoflag(FILE* file, char** str, const char* flag) {
 
   // Copy everything to the res string.
   lenstr = str != NULL ? strlen(*str) : 0;
-  while (((str != NULL) && (nb_chars != lenstr)) ||
-         ((file != NULL) && (!feof(file)))) {
-    res[nb_chars++] = (str != NULL) ? *((*str)++) : (char)fgetc(file);
+  while ((file != NULL) || (nb_chars != lenstr)) {
+    c = (str != NULL) ? *((*str)++) : fgetc(file);
+    if ((file != NULL) && (c == EOF))
+      break;
+    res[nb_chars++] = (char)c;
 
     if ((nb_chars >= lenflag) &&
         (!strncmp(&res[nb_chars - lenflag], flag, lenflag))) {
-- 
2.43.0


From f0fa7cafb581f31695abbeaaa11dd1e1b84fd316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 03/67] fix: token readers stay within their buffers

An over-long token in an input string overran the local buffer of
osl_util_read_int, osl_util_read_string and osl_util_read_tag.
---
 source/util.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/util.c b/source/util.c
index 0a88c65..7630aca 100644
--- a/source/util.c
+++ b/source/util.c
@@ -148,7 +148,8 @@ int osl_util_read_int(FILE* file, char** str) {
     osl_util_sskip_blank_and_comments(str);
 
     // Build the chain to analyze.
-    while (**str && !isspace(**str) && **str != '\n' && **str != '#')
+    while (**str && !isspace(**str) && **str != '\n' && **str != '#' &&
+           i < OSL_MAX_STRING - 1)
       s[i++] = *((*str)++);
     s[i] = '\0';
     if (sscanf(s, "%d", &res) != 1)
@@ -188,8 +189,11 @@ char* osl_util_read_string(FILE* file, char** str) {
     osl_util_sskip_blank_and_comments(str);
 
     // Build the chain to analyze.
-    while (**str && !isspace(**str) && **str != '\n' && **str != '#')
+    while (**str && !isspace(**str) && **str != '\n' && **str != '#') {
+      if (i >= OSL_MAX_STRING - 1)
+        OSL_error("string too long");
       s[i++] = *((*str)++);
+    }
     s[i] = '\0';
     if (sscanf(s, "%s", res) != 1)
       OSL_error("a string was expected");
@@ -283,6 +287,8 @@ char* osl_util_read_tag(FILE* file, char** str) {
   res[OSL_MAX_STRING] = '\0';
 
   while (**str && **str != '>') {
+    if (i >= OSL_MAX_STRING)
+      OSL_error("tag name too long");
     if (((**str >= 'A') && (**str <= 'Z')) ||
         ((**str >= 'a') && (**str <= 'z')) || ((**str == '/') && (i == 0)) ||
         (**str == '_')) {
-- 
2.43.0


From c7b145bd5fc37efefc9d284379e4147f311ce4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 04/67] fix: osl_util_read_line accepts lines of any length
 from a string

Lines longer than OSL_MAX_STRING were split, and the terminating NUL was
written one byte after the buffer.
---
 source/util.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/util.c b/source/util.c
index 7630aca..c6ef271 100644
--- a/source/util.c
+++ b/source/util.c
@@ -229,13 +229,16 @@ char* osl_util_read_line(FILE* file, char** str) {
     start = osl_util_skip_blank_and_comments(file, s);
     if (start == NULL)
       OSL_error("a line was expected");
-    while (*start && *start != '\n' && *start != '#' && i < OSL_MAX_STRING)
+    while (*start && *start != '\n' && *start != '#')
       res[i++] = *start++;
   } else {
     // Parse from a string.
     osl_util_sskip_blank_and_comments(str);
-    while (**str && **str != '\n' && **str != '#' && i < OSL_MAX_STRING)
+    while (**str && **str != '\n' && **str != '#') {
+      if ((i + 1) % OSL_MAX_STRING == 0)
+        OSL_realloc(res, char*, (i + 1 + OSL_MAX_STRING) * sizeof(char));
       res[i++] = *((*str)++);
+    }
   }
 
   res[i] = '\0';
-- 
2.43.0


From 269e7bbcc1187b83d4d808affdf978734cc0e3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 05/67] fix: osl_util_tag_content accepts an empty content

With nothing between the tags the copy loop started after its end and ran out
of bounds.
---
 source/util.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/util.c b/source/util.c
index c6ef271..493aec8 100644
--- a/source/util.c
+++ b/source/util.c
@@ -451,8 +451,10 @@ char* osl_util_tag_content(const char* str, const char* name) {
       return NULL;
     OSL_malloc(res, char*, (size + 1) * sizeof(char));
 
-    // Copy the chain between the two tags.
-    for (++start, i = 0; start != stop; ++start, ++i)
+    // Copy the chain between the two tags (without the first newline).
+    if (start != stop)
+      ++start;
+    for (i = 0; start != stop; ++start, ++i)
       res[i] = *start;
     res[i] = '\0';
   }
-- 
2.43.0


From 6daa15de78ea1692fee637307c2e1093603e25fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 06/67] fix: generic readers release the name of a tag they
 reject

---
 source/generic.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/generic.c b/source/generic.c
index 8e878c4..be7550d 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -264,6 +264,7 @@ osl_generic_t* osl_generic_sread_one(char** const input,
   tag = osl_util_read_tag(NULL, input);
   if ((tag == NULL) || (strlen(tag) < 1) || (tag[0] == '/')) {
     OSL_debug("empty tag name or closing tag instead of an opening one");
+    free(tag);
     return NULL;
   }
 
@@ -306,6 +307,7 @@ osl_generic_t* osl_generic_read_one(FILE* const file,
   tag = osl_util_read_tag(file, NULL);
   if ((tag == NULL) || (strlen(tag) < 1) || (tag[0] == '/')) {
     OSL_debug("empty tag name or closing tag instead of an opening one");
+    free(tag);
     return NULL;
   }
 
-- 
2.43.0


From 54d814fa8fe8a0ab7287a58a1d00ddb996ad605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 07/67] fix: generic readers report a missing end tag

The missing content was handed over as NULL, which crashed the readers.
---
 source/generic.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/generic.c b/source/generic.c
index be7550d..155cde6 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -269,6 +269,8 @@ osl_generic_t* osl_generic_sread_one(char** const input,
   }
 
   content = osl_util_read_uptoendtag(NULL, input, tag);
+  if (content == NULL)
+    OSL_error("end tag not found");
   interface = osl_interface_lookup(registry, tag);
 
   temp = content;
@@ -312,6 +314,8 @@ osl_generic_t* osl_generic_read_one(FILE* const file,
   }
 
   content = osl_util_read_uptoendtag(file, NULL, tag);
+  if (content == NULL)
+    OSL_error("end tag not found");
   interface = osl_interface_lookup(registry, tag);
 
   temp = content;
@@ -344,6 +348,8 @@ osl_generic_t* osl_generic_read(FILE* const file,
   osl_generic_p generic_list;
 
   generic_string = osl_util_read_uptoendtag(file, NULL, OSL_URI_SCOP);
+  if (generic_string == NULL)
+    OSL_error("end tag of the scop not found");
   temp = generic_string;
   generic_list = osl_generic_sread(&temp, registry);
   free(generic_string);
-- 
2.43.0


From e2cffbedf050c693aac3a5c4cf53f2e2dc11137e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 08/67] fix: relation readers report truncated and over-long
 input

sscanf returns EOF rather than 0 at the end of the input: the previous element
was silently used again. Over-long lines and elements overran local buffers, and
a missing attribute line was dereferenced.
---
 source/relation.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 426343f..09b40e9 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1352,6 +1352,8 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
 
       // Read relation attributes.
       c = osl_util_skip_blank_and_comments(foo, s);
+      if (c == NULL)
+        OSL_error("relation attributes were expected");
       read = sscanf(c, " %d %d %d %d %d %d", &nb_rows, &nb_columns,
                     &nb_output_dims, &nb_input_dims, &nb_local_dims,
                     &nb_parameters);
@@ -1390,8 +1392,8 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
       for (j = 0; j < relation->nb_columns; j++) {
         if (c == NULL || *c == '#' || *c == '\n')
           OSL_error("not enough columns");
-        if (sscanf(c, "%s%n", str, &n) == 0)
-          OSL_error("not enough rows");
+        if (sscanf(c, "%s%n", str, &n) != 1)
+          OSL_error("not enough columns");
 
         // TODO: remove this tmp (sread updates the pointer).
         tmp = str;
@@ -1469,6 +1471,8 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
         tmp++;
         row_size += 1;
       }
+      if (row_size >= OSL_MAX_STRING)
+        OSL_error("relation attribute line too long");
       strncpy(str, *input, sizeof(char) * row_size);
       str[(tmp - *input)] = '\0';
 
@@ -1510,8 +1514,10 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
       for (j = 0; j < relation->nb_columns; j++) {
         if (*input == NULL || **input == '#' || **input == '\n')
           OSL_error("not enough columns");
-        if (sscanf(*input, "%s%n", str, &n) == 0)
-          OSL_error("not enough rows");
+        if (sscanf(*input, "%2047s%n", str, &n) != 1)
+          OSL_error("not enough columns");
+        if (strlen(str) >= OSL_MAX_STRING - 1)
+          OSL_error("relation element too long");
 
         // TODO: remove this tmp (sread updates the pointer).
         tmp = str;
-- 
2.43.0


From 52301c4ce366211bf2e7757e48a5a2ea61d32a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 09/67] fix: osl_relation_psread sets the type of all union
 parts

---
 source/relation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/relation.c b/source/relation.c
index 09b40e9..5b8bb3b 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1430,7 +1430,7 @@ osl_relation_t* osl_relation_psread(char** input, int precision) {
 
   type = osl_relation_read_type(NULL, input);
   relation = osl_relation_psread_polylib(input, precision);
-  relation->type = type;
+  osl_relation_set_type(relation, type);
 
   return relation;
 }
-- 
2.43.0


From 2a5d3a4087450f81c43c080eed8cdecff5506f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 10/67] fix: osl_strings_sread stays inside its input and its
 buffer

It stepped over the terminating NUL when the text did not end with a newline,
overran a local buffer on long strings, and lost strings separated by more than
one space.
---
 source/strings.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/source/strings.c b/source/strings.c
index 6885b3a..7eceb79 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -183,11 +183,9 @@ void osl_strings_print(FILE* const file, const osl_strings_t* const strings) {
  * \return A pointer to the strings structure that has been read.
  */
 osl_strings_t* osl_strings_sread(char** const input) {
-  char tmp[OSL_MAX_STRING];
   char* s;
   char** string = NULL;
-  size_t i, nb_strings;
-  int count;
+  size_t i, nb_strings, count;
   osl_strings_p strings = NULL;
 
   // Skip blank/commented lines and spaces before the strings.
@@ -217,11 +215,15 @@ osl_strings_t* osl_strings_sread(char** const input) {
     // Read the desired number of strings.
     s = *input;
     for (i = 0; i < nb_strings; i++) {
-      for (count = 0; *s && !isspace(*s) && *s != '#'; count++)
-        tmp[count] = *(s++);
-      tmp[count] = '\0';
-      OSL_strdup(string[i], tmp);
-      if (*s != '#')
+      while (isspace(*s))
+        s++;
+      for (count = 0; s[count] && !isspace(s[count]) && s[count] != '#';)
+        count++;
+      OSL_malloc(string[i], char*, (count + 1) * sizeof(char));
+      memcpy(string[i], s, count);
+      string[i][count] = '\0';
+      s += count;
+      if (*s && *s != '#')
         s++;
     }
 
-- 
2.43.0


From afbaa8ed95323c18f32fc104faa77a837a41ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 11/67] fix: osl_strings_read returns NULL at the end of the
 file

---
 source/strings.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/strings.c b/source/strings.c
index 7eceb79..808622b 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -253,6 +253,8 @@ osl_strings_t* osl_strings_read(FILE* const file) {
   osl_strings_p strings;
 
   start = osl_util_skip_blank_and_comments(file, buffer);
+  if (start == NULL)
+    return NULL;
   strings = osl_strings_sread(&start);
 
   return strings;
-- 
2.43.0


From 9dad7c6355e8c1d13ff7ebe7ea28babbd5c9368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 12/67] fix: osl_strings_sprint prints strings of any length

---
 source/strings.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/strings.c b/source/strings.c
index 808622b..0365747 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -134,8 +134,7 @@ char* osl_strings_sprint(const osl_strings_t* strings) {
 
   if (strings != NULL) {
     for (i = 0; i < osl_strings_size(strings); i++) {
-      sprintf(buffer, "%s", strings->string[i]);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, strings->string[i], &high_water_mark);
       if (i < osl_strings_size(strings) - 1)
         osl_util_safe_strcat(&string, " ", &high_water_mark);
     }
-- 
2.43.0


From 5ccb9eee94a1652a0bf6350f29cc890aeab1882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 13/67] fix: osl_strings_add reports a failing allocation

---
 source/strings.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/strings.c b/source/strings.c
index 0365747..ec9376b 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -361,7 +361,8 @@ void osl_strings_add(osl_strings_t* const strings, char const* const string) {
   size_t original_size = osl_strings_size(strings);
   OSL_realloc(strings->string, char**, sizeof(char*) * (original_size + 1 + 1));
   strings->string[original_size + 1] = NULL;
-  strings->string[original_size] = malloc(sizeof(char) * (strlen(string) + 1));
+  OSL_malloc(strings->string[original_size], char*,
+             sizeof(char) * (strlen(string) + 1));
   strcpy(strings->string[original_size], string);
 }
 
-- 
2.43.0


From 90846731fafd1ab6a39560587ea0effc20fbd5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 14/67] fix: osl_strings_generate accepts a negative number of
 strings

It wrote before the allocated array, e.g. for relations whose number of
parameters is undefined.
---
 source/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/strings.c b/source/strings.c
index ec9376b..4d81e9e 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -464,7 +464,7 @@ osl_strings_t* osl_strings_generate(const char* prefix, int nb_strings) {
   int i;
   osl_strings_p generated;
 
-  if (nb_strings) {
+  if (nb_strings > 0) {
     OSL_malloc(strings, char**, sizeof(char*) * (size_t)(nb_strings + 1));
     strings[nb_strings] = NULL;
     for (i = 0; i < nb_strings; i++) {
-- 
2.43.0


From a7c57f7b405190b469e10001170c6e300ffc8035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 15/67] fix: osl_strings_add_strings accepts a strings
 structure without array

osl_strings_generate with no string to generate builds one.
---
 source/strings.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/strings.c b/source/strings.c
index 4d81e9e..7193f1f 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -493,13 +493,11 @@ void osl_strings_add_strings(osl_strings_t** const dest,
                              const osl_strings_t* str1,
                              const osl_strings_t* str2) {
   struct osl_strings* res = NULL;
-  unsigned int i = 0;
+  size_t i;
 
   res = osl_strings_clone(str1);
-  while (str2->string[i] != NULL) {
+  for (i = 0; i < osl_strings_size(str2); i++)
     osl_strings_add(res, str2->string[i]);
-    i++;
-  }
 
   *dest = res;
 }
-- 
2.43.0


From f2e45a2ed4d6dc080213533e3b1d40e1213fe000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 16/67] fix: equality tests accept NULL operands and fields

---
 source/extensions/dependence.c |  3 +++
 source/extensions/loop.c       | 10 +++++++---
 source/scop.c                  |  4 +++-
 source/statement.c             |  5 +++++
 source/vector.c                |  3 +++
 5 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index 306a651..2460eb9 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -578,6 +578,9 @@ bool osl_dependence_equal(const osl_dependence_t* d1,
   if (d1 == d2)
     return 1;
 
+  if (d1 == NULL || d2 == NULL)
+    return 0;
+
   if ((d1->next != NULL && d2->next == NULL) ||
       (d1->next == NULL && d2->next != NULL))
     return 0;
diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index f6ff067..7f6ae63 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -465,7 +465,9 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
     return 0;
   }
 
-  if (strcmp(a1->iter, a2->iter)) {
+  if ((a1->iter != a2->iter) &&  // NULL check
+      ((a1->iter == NULL) || (a2->iter == NULL) ||
+       strcmp(a1->iter, a2->iter))) {
     // OSL_info("loops are not the same (iter name)");
     return 0;
   }
@@ -487,7 +489,8 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
 
   // TODO: necessarily same ???
   if (a1->private_vars != a2->private_vars) {  // NULL check
-    if (strcmp(a1->private_vars, a2->private_vars)) {
+    if ((a1->private_vars == NULL) || (a2->private_vars == NULL) ||
+        strcmp(a1->private_vars, a2->private_vars)) {
       // OSL_info("loops are not the same (private vars)");
       return 0;
     }
@@ -500,7 +503,8 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
   }
 
   if (a1->user != a2->user) {  // NULL check
-    if (strcmp(a1->user, a2->user)) {
+    if ((a1->user == NULL) || (a2->user == NULL) ||
+        strcmp(a1->user, a2->user)) {
       return 0;
     }
   }
diff --git a/source/scop.c b/source/scop.c
index a1d9ac9..424d60d 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -709,7 +709,9 @@ bool osl_scop_equal(const osl_scop_t* s1, const osl_scop_t* s2) {
       return 0;
     }
 
-    if (strcmp(s1->language, s2->language) != 0) {
+    if ((s1->language != s2->language) &&  // NULL check
+        ((s1->language == NULL) || (s2->language == NULL) ||
+         (strcmp(s1->language, s2->language) != 0))) {
       OSL_info("languages are not the same");
       return 0;
     }
diff --git a/source/statement.c b/source/statement.c
index 6cf7ada..3de955b 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -671,6 +671,11 @@ int osl_statement_equal(const osl_statement_t* const s1,
   if (s1 == s2)
     return 1;
 
+  if ((s1 == NULL) || (s2 == NULL)) {
+    OSL_info("statements are not the same");
+    return 0;
+  }
+
   if (((s1->next != NULL) && (s2->next == NULL)) ||
       ((s1->next == NULL) && (s2->next != NULL))) {
     OSL_info("statements are not the same");
diff --git a/source/vector.c b/source/vector.c
index 7bce599..b456811 100644
--- a/source/vector.c
+++ b/source/vector.c
@@ -319,6 +319,9 @@ int osl_vector_equal(const osl_vector_t* const v1,
   if (v1 == v2)
     return 1;
 
+  if ((v1 == NULL) || (v2 == NULL))
+    return 0;
+
   if ((v1->size != v2->size) || (v1->precision != v2->precision))
     return 0;
 
-- 
2.43.0


From 3a8f550bf73d386e120e3661b12f4bae0f0efa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 17/67] fix: osl_region_equal stops at the end of the lists

---
 source/extensions/region.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/source/extensions/region.c b/source/extensions/region.c
index b73632d..cec1330 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -429,12 +429,15 @@ bool osl_region_equal_one(const osl_region_t* r1, const osl_region_t* r2) {
 }
 
 bool osl_region_equal(const osl_region_t* r1, const osl_region_t* r2) {
-  bool equal = osl_region_equal_one(r1, r2);
+  while ((r1 != NULL) && (r2 != NULL)) {
+    if (!osl_region_equal_one(r1, r2))
+      return false;
 
-  if (equal)
-    return osl_region_equal(r1->next, r2->next);
-  else
-    return equal;
+    r1 = r1->next;
+    r2 = r2->next;
+  }
+
+  return (r1 == NULL) && (r2 == NULL);
 }
 
 size_t osl_region_count(const osl_region_t* region) {
-- 
2.43.0


From d2d959a37d0b7e4aa51601d1f56fce9365a5fc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 18/67] fix: osl_relation_list_set_type sets the type of all
 union parts

---
 source/relation_list.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/relation_list.c b/source/relation_list.c
index ec373ba..798ebda 100644
--- a/source/relation_list.c
+++ b/source/relation_list.c
@@ -649,9 +649,11 @@ int osl_relation_list_integrity_check(const osl_relation_list_t* list, int type,
  * \param type The type.
  */
 void osl_relation_list_set_type(osl_relation_list_t* list, int type) {
+  osl_relation_p relation;
+
   while (list != NULL) {
-    if (list->elt != NULL) {
-      list->elt->type = type;
+    for (relation = list->elt; relation != NULL; relation = relation->next) {
+      relation->type = type;
     }
     list = list->next;
   }
-- 
2.43.0


From 8a5f44c580542af7c213702d1c1ef09263bf1a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 19/67] fix: extension printers accept texts of any length

---
 source/extensions/annotation.c   |  5 +++--
 source/extensions/arrays.c       |  4 +++-
 source/extensions/clay.c         |  4 +---
 source/extensions/comment.c      |  4 +---
 source/extensions/coordinates.c  |  5 +++--
 source/extensions/loop.c         | 16 ++++++++------
 source/extensions/pluto_unroll.c | 37 +++++++++++++++++++-------------
 source/extensions/region.c       |  5 +++--
 8 files changed, 46 insertions(+), 34 deletions(-)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index bb41a58..6703319 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -231,8 +231,9 @@ char* osl_annotation_sprint(const osl_annotation_t* annotation) {
     for (size_t i = 0; i < annotation->field.count; ++i) {     \
       sprintf(buffer, "%d ", annotation->field.types[i]);      \
       osl_util_safe_strcat(&string, buffer, &high_water_mark); \
-      sprintf(buffer, "%s\n", annotation->field.lines[i]);     \
-      osl_util_safe_strcat(&string, buffer, &high_water_mark); \
+      osl_util_safe_strcat(&string, annotation->field.lines[i],\
+                           &high_water_mark);                  \
+      osl_util_safe_strcat(&string, "\n", &high_water_mark);   \
     }                                                          \
   } while (0)
 
diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index 71856a9..a7e8df9 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -160,8 +160,10 @@ char* osl_arrays_sprint(const osl_arrays_t* const arrays) {
       osl_util_safe_strcat(&string, buffer, &high_water_mark);
     }
     for (i = 0; i < arrays->nb_names; i++) {
-      sprintf(buffer, "%d %s\n", arrays->id[i], arrays->names[i]);
+      sprintf(buffer, "%d ", arrays->id[i]);
       osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, arrays->names[i], &high_water_mark);
+      osl_util_safe_strcat(&string, "\n", &high_water_mark);
     }
 
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
diff --git a/source/extensions/clay.c b/source/extensions/clay.c
index b65cdc2..fe62b16 100644
--- a/source/extensions/clay.c
+++ b/source/extensions/clay.c
@@ -137,15 +137,13 @@ void osl_clay_dump(FILE* const file, const osl_clay_t* const clay) {
 char* osl_clay_sprint(const osl_clay_t* const clay) {
   size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
-  char buffer[OSL_MAX_STRING];
 
   if (clay != NULL) {
     OSL_malloc(string, char*, high_water_mark * sizeof(char));
     string[0] = '\0';
 
     // Print the clay.
-    sprintf(buffer, "%s", clay->script);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, clay->script, &high_water_mark);
 
     // Keep only the memory space we need.
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
diff --git a/source/extensions/comment.c b/source/extensions/comment.c
index 1798d15..47d403d 100644
--- a/source/extensions/comment.c
+++ b/source/extensions/comment.c
@@ -138,15 +138,13 @@ void osl_comment_dump(FILE* const file, const osl_comment_t* const comment) {
 char* osl_comment_sprint(const osl_comment_t* const comment) {
   size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
-  char buffer[OSL_MAX_STRING];
 
   if (comment != NULL) {
     OSL_malloc(string, char*, high_water_mark * sizeof(char));
     string[0] = '\0';
 
     // Print the comment.
-    sprintf(buffer, "%s", comment->comment);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, comment->comment, &high_water_mark);
 
     // Keep only the memory space we need.
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
diff --git a/source/extensions/coordinates.c b/source/extensions/coordinates.c
index e9e9b44..3e27278 100644
--- a/source/extensions/coordinates.c
+++ b/source/extensions/coordinates.c
@@ -159,8 +159,9 @@ char* osl_coordinates_sprint(const osl_coordinates_t* const coordinates) {
     string[0] = '\0';
 
     // Print the coordinates content.
-    sprintf(buffer, "# File name\n%s\n", coordinates->name);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, "# File name\n", &high_water_mark);
+    osl_util_safe_strcat(&string, coordinates->name, &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
     sprintf(buffer, "# Starting line and column\n%d %d\n",
             coordinates->line_start, coordinates->column_start);
diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index 7f6ae63..148cfc1 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -204,8 +204,9 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
 
     sprintf(buffer, "# Iterator name\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
-    sprintf(buffer, "%s\n", loop->iter);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, loop->iter != NULL ? loop->iter : "(null)",
+                         &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
     sprintf(buffer, "# Number of stmts\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
@@ -223,8 +224,10 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
 
     sprintf(buffer, "# Private variables\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
-    sprintf(buffer, "%s\n", loop->private_vars);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(
+        &string, loop->private_vars != NULL ? loop->private_vars : "(null)",
+        &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
     sprintf(buffer, "# Directive\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
@@ -233,8 +236,9 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
 
     // special case for OSL_LOOP_DIRECTIVE_USER
     if (loop->directive & OSL_LOOP_DIRECTIVE_USER) {
-      sprintf(buffer, " %s", loop->user);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, " ", &high_water_mark);
+      osl_util_safe_strcat(&string, loop->user != NULL ? loop->user : "(null)",
+                           &high_water_mark);
     }
     sprintf(buffer, "\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
diff --git a/source/extensions/pluto_unroll.c b/source/extensions/pluto_unroll.c
index d5f4190..4dc3639 100644
--- a/source/extensions/pluto_unroll.c
+++ b/source/extensions/pluto_unroll.c
@@ -164,38 +164,45 @@ void osl_pluto_unroll_dump(FILE* const file,
  * \return a string containing the OpenScop dump of the loop structure.
  */
 char* osl_pluto_unroll_sprint(const osl_pluto_unroll_t* pluto_unroll) {
+  size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
-  char buffer[OSL_MAX_STRING] = {0};
+  char buffer[OSL_MAX_STRING];
 
-  strcat(buffer, "# Pluto unroll\n");
+  OSL_malloc(string, char*, high_water_mark * sizeof(char));
+  string[0] = '\0';
+
+  osl_util_safe_strcat(&string, "# Pluto unroll\n", &high_water_mark);
   if (pluto_unroll != NULL) {
-    strcat(buffer, "1\n");
+    osl_util_safe_strcat(&string, "1\n", &high_water_mark);
   } else {
-    strcat(buffer, "0\n");
+    osl_util_safe_strcat(&string, "0\n", &high_water_mark);
   }
 
   while (pluto_unroll != NULL) {
-    strcat(buffer, "# Iterator name\n");
-    sprintf(buffer + strlen(buffer), "%s\n", pluto_unroll->iter);
+    osl_util_safe_strcat(&string, "# Iterator name\n", &high_water_mark);
+    osl_util_safe_strcat(
+        &string, pluto_unroll->iter != NULL ? pluto_unroll->iter : "(null)",
+        &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
-    strcat(buffer, "# Jam\n");
-    sprintf(buffer + strlen(buffer), "%i\n", pluto_unroll->jam);
+    sprintf(buffer, "# Jam\n%i\n", pluto_unroll->jam);
+    osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
-    strcat(buffer, "# Factor\n");
-    sprintf(buffer + strlen(buffer), "%u\n", pluto_unroll->factor);
+    sprintf(buffer, "# Factor\n%u\n", pluto_unroll->factor);
+    osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
     pluto_unroll = pluto_unroll->next;
 
-    strcat(buffer, "# Next\n");
+    osl_util_safe_strcat(&string, "# Next\n", &high_water_mark);
     if (pluto_unroll != NULL) {
-      strcat(buffer, "1\n");
+      osl_util_safe_strcat(&string, "1\n", &high_water_mark);
     } else {
-      strcat(buffer, "0\n");
+      osl_util_safe_strcat(&string, "0\n", &high_water_mark);
     }
   }
 
-  OSL_realloc(string, char*, (strlen(buffer) + 1) * sizeof(char));
-  strcpy(string, buffer);
+  // Keep only the memory space we need.
+  OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
 
   return string;
 }
diff --git a/source/extensions/region.c b/source/extensions/region.c
index cec1330..e795341 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -273,8 +273,9 @@ char* osl_region_sprint(const osl_region_t* region) {
     for (size_t i = 0; i < region->field.count; ++i) {         \
       sprintf(buffer, "%d ", region->field.types[i]);          \
       osl_util_safe_strcat(&string, buffer, &high_water_mark); \
-      sprintf(buffer, "%s\n", region->field.lines[i]);         \
-      osl_util_safe_strcat(&string, buffer, &high_water_mark); \
+      osl_util_safe_strcat(&string, region->field.lines[i],    \
+                           &high_water_mark);                  \
+      osl_util_safe_strcat(&string, "\n", &high_water_mark);   \
     }                                                          \
   } while (0)
 
-- 
2.43.0


From a7b06b5ac93dd440949e7f7ffa9fdadf9544b1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 20/67] fix: comments read back as they were written

---
 source/extensions/comment.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/extensions/comment.c b/source/extensions/comment.c
index 47d403d..e7126ed 100644
--- a/source/extensions/comment.c
+++ b/source/extensions/comment.c
@@ -169,18 +169,22 @@ char* osl_comment_sprint(const osl_comment_t* const comment) {
  */
 osl_comment_t* osl_comment_sread(char** input) {
   osl_comment_p comment;
+  char* text;
 
   if (*input == NULL) {
     OSL_debug("no comment optional tag");
     return NULL;
   }
 
-  if (strlen(*input) > OSL_MAX_STRING)
-    OSL_error("comment too long");
-
   // Build the comment structure
   comment = osl_comment_malloc();
-  OSL_strdup(comment->comment, *input);
+  text = *input;
+
+  // Pass the carriage returns (this allows to remove those inserted by
+  // osl_generic_print), and copy the comment.
+  while (*text && (*text == '\n'))
+    text++;
+  OSL_strdup(comment->comment, text);
 
   // Update the input pointer (everything has been read).
   input += strlen(*input);
-- 
2.43.0


From f76a430bb798daa2b7327d69977505f45ee0dc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 21/67] fix: symbols and clay scripts of any length can be read
 back

---
 source/extensions/clay.c    | 3 ---
 source/extensions/symbols.c | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/source/extensions/clay.c b/source/extensions/clay.c
index fe62b16..145809b 100644
--- a/source/extensions/clay.c
+++ b/source/extensions/clay.c
@@ -175,9 +175,6 @@ osl_clay_t* osl_clay_sread(char** input) {
     return NULL;
   }
 
-  if (strlen(*input) > OSL_MAX_STRING)
-    OSL_error("clay script too long");
-
   // Build the clay structure
   clay = osl_clay_malloc();
   script = *input;
diff --git a/source/extensions/symbols.c b/source/extensions/symbols.c
index 087d11c..814aaee 100644
--- a/source/extensions/symbols.c
+++ b/source/extensions/symbols.c
@@ -326,9 +326,6 @@ osl_symbols_t* osl_symbols_sread(char** input) {
     return NULL;
   }
 
-  if (strlen(*input) > OSL_MAX_STRING)
-    OSL_error("symbols too long");
-
   // Find the number of names provided.
   nb_symbols = osl_util_read_int(NULL, input);
 
-- 
2.43.0


From da7e1f94549335371ee678c72934c4622a1a18a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 22/67] fix: osl_symbols_equal compares all the symbols of the
 lists

---
 source/extensions/symbols.c | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/source/extensions/symbols.c b/source/extensions/symbols.c
index 814aaee..3d13185 100644
--- a/source/extensions/symbols.c
+++ b/source/extensions/symbols.c
@@ -497,26 +497,23 @@ osl_symbols_t* osl_symbols_clone(const osl_symbols_t* const symbols) {
  * \return 1 if c1 and c2 are the same (content-wise), 0 otherwise.
  */
 bool osl_symbols_equal(const osl_symbols_t* c1, const osl_symbols_t* c2) {
-  if (c1 == c2)
-    return 1;
-
-  if (((c1 == NULL) && (c2 != NULL)) || ((c1 != NULL) && (c2 == NULL)))
-    return 0;
-
-  if (c1->type == c2->type && c1->generated == c2->generated &&
-      c1->nb_dims == c2->nb_dims) {
-    if (osl_generic_equal(c1->identifier, c2->identifier)) {
-      if (osl_generic_equal(c1->datatype, c2->datatype)) {
-        if (osl_generic_equal(c1->scope, c2->scope)) {
-          if (osl_generic_equal(c1->extent, c2->extent)) {
-            return 1;
-          }
-        }
-      }
-    }
+  while ((c1 != NULL) && (c2 != NULL)) {
+    if (c1 == c2)
+      return 1;
+
+    if (c1->type != c2->type || c1->generated != c2->generated ||
+        c1->nb_dims != c2->nb_dims ||
+        !osl_generic_equal(c1->identifier, c2->identifier) ||
+        !osl_generic_equal(c1->datatype, c2->datatype) ||
+        !osl_generic_equal(c1->scope, c2->scope) ||
+        !osl_generic_equal(c1->extent, c2->extent))
+      return 0;
+
+    c1 = c1->next;
+    c2 = c2->next;
   }
 
-  return 0;
+  return (c1 == NULL) && (c2 == NULL);
 }
 
 /**
-- 
2.43.0


From cae1a4b6887786c4b1551a63451a1ff782e5bf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 23/67] fix: extension printers keep accepting missing texts

---
 source/extensions/clay.c        | 3 ++-
 source/extensions/comment.c     | 4 +++-
 source/extensions/coordinates.c | 4 +++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/extensions/clay.c b/source/extensions/clay.c
index 145809b..285b55e 100644
--- a/source/extensions/clay.c
+++ b/source/extensions/clay.c
@@ -143,7 +143,8 @@ char* osl_clay_sprint(const osl_clay_t* const clay) {
     string[0] = '\0';
 
     // Print the clay.
-    osl_util_safe_strcat(&string, clay->script, &high_water_mark);
+    osl_util_safe_strcat(&string, clay->script != NULL ? clay->script : "(null)",
+                         &high_water_mark);
 
     // Keep only the memory space we need.
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
diff --git a/source/extensions/comment.c b/source/extensions/comment.c
index e7126ed..e7f0ebb 100644
--- a/source/extensions/comment.c
+++ b/source/extensions/comment.c
@@ -144,7 +144,9 @@ char* osl_comment_sprint(const osl_comment_t* const comment) {
     string[0] = '\0';
 
     // Print the comment.
-    osl_util_safe_strcat(&string, comment->comment, &high_water_mark);
+    osl_util_safe_strcat(&string,
+                         comment->comment != NULL ? comment->comment : "(null)",
+                         &high_water_mark);
 
     // Keep only the memory space we need.
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
diff --git a/source/extensions/coordinates.c b/source/extensions/coordinates.c
index 3e27278..c0551c3 100644
--- a/source/extensions/coordinates.c
+++ b/source/extensions/coordinates.c
@@ -160,7 +160,9 @@ char* osl_coordinates_sprint(const osl_coordinates_t* const coordinates) {
 
     // Print the coordinates content.
     osl_util_safe_strcat(&string, "# File name\n", &high_water_mark);
-    osl_util_safe_strcat(&string, coordinates->name, &high_water_mark);
+    osl_util_safe_strcat(
+        &string, coordinates->name != NULL ? coordinates->name : "(null)",
+        &high_water_mark);
     osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
     sprintf(buffer, "# Starting line and column\n%d %d\n",
-- 
2.43.0


From 97059ccd7aa6523f483a5c479518fc1612797f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 24/67] fix: osl_irregular_clone copies the predicate bodies

---
 source/extensions/irregular.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index 8fde9e1..eea4534 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -459,7 +459,7 @@ osl_irregular_t* osl_irregular_clone(const osl_irregular_t* irregular) {
     }
     for (j = 0; j < copy->nb_iterators[i]; j++)
       OSL_strdup(copy->iterators[i][j], irregular->iterators[i][j]);
-    OSL_strdup(copy->iterators[i][j], irregular->body[i]);
+    OSL_strdup(copy->body[i], irregular->body[i]);
   }
 
   return copy;
-- 
2.43.0


From 35c1343dfd6151ab385003801519309656a5be19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 25/67] fix: osl_irregular_equal compares the predicates of the
 statements

---
 source/extensions/irregular.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index eea4534..98b9180 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -488,6 +488,11 @@ bool osl_irregular_equal(const osl_irregular_t* const c1,
   i = 0;
   while (comp == 0 && i < c1->nb_statements) {
     comp = c1->nb_predicates[i] != c2->nb_predicates[i] ? 1 : 0;
+    j = 0;
+    while (comp == 0 && j < c1->nb_predicates[i]) {
+      comp = c1->predicates[i][j] != c2->predicates[i][j] ? 1 : 0;
+      j++;
+    }
     i++;
   }
   if (comp != 0)
@@ -496,10 +501,10 @@ bool osl_irregular_equal(const osl_irregular_t* const c1,
   i = 0;
   while (comp == 0 && i < c1->nb_control + c1->nb_exit) {
     comp += c1->nb_iterators[i] != c2->nb_iterators[i] ? 1 : 0;
-    comp += strcmp(c1->body[i], c2->body[i]);
+    comp += strcmp(c1->body[i], c2->body[i]) != 0 ? 1 : 0;
     j = 0;
     while (comp == 0 && j < c1->nb_iterators[i]) {
-      comp += strcmp(c1->iterators[i][j], c2->iterators[i][j]);
+      comp += strcmp(c1->iterators[i][j], c2->iterators[i][j]) != 0 ? 1 : 0;
       j++;
     }
     i++;
-- 
2.43.0


From ba39236d50dac1be19131329c0590ef24ceebbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 26/67] fix: irregular printer restarts its argument list when
 its buffer grows

---
 source/extensions/irregular.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index 98b9180..a37f318 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -154,9 +154,10 @@ static void
 printf_in_buf(char** buf, size_t* buf_size, size_t* offset, const char* fmt,
               ...) {
   va_list va;
-  va_start(va, fmt);
   do {
+    va_start(va, fmt);
     int printed = vsnprintf((*buf) + *offset, *buf_size - *offset, fmt, va);
+    va_end(va);
     if (printed < 0)
       OSL_error(
           "snprintf encountered an error while writing inside a local buffer");
@@ -168,7 +169,6 @@ printf_in_buf(char** buf, size_t* buf_size, size_t* offset, const char* fmt,
     OSL_realloc(*buf, char*, *buf_size * 2);
     *buf_size *= 2;
   } while (1);
-  va_end(va);
 }
 
 /**
-- 
2.43.0


From e03ca44de80d31a38d67afd530754dd0fdf30267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 27/67] fix: irregular extensions read back as they were
 written

---
 source/extensions/irregular.c | 57 ++++++++++++++---------------------
 1 file changed, 22 insertions(+), 35 deletions(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index a37f318..e01b8cb 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -189,14 +189,12 @@ char* osl_irregular_sprint(const osl_irregular_t* const irregular) {
     OSL_malloc(string, char*, high_water_mark * sizeof(char));
     string[0] = '\0';
 
-    // Print the begin tag.
-    osl_util_safe_strcat(&string, OSL_TAG_IRREGULAR_START, &high_water_mark);
     size_t buf_offset = 0;
     size_t buf_size = OSL_MAX_STRING;
     OSL_malloc(buffer, char*, OSL_MAX_STRING * sizeof(char));
 
     // Print the content.
-    printf_in_buf(&buffer, &buf_size, &buf_offset, "\n%d\n",
+    printf_in_buf(&buffer, &buf_size, &buf_offset, "%d\n",
                   irregular->nb_statements);
     for (i = 0; i < irregular->nb_statements; i++) {
       printf_in_buf(&buffer, &buf_size, &buf_offset, "%d ",
@@ -234,10 +232,6 @@ char* osl_irregular_sprint(const osl_irregular_t* const irregular) {
 
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
-    // Print the end tag.
-    osl_util_safe_strcat(&string, OSL_TAG_IRREGULAR_STOP "\n",
-                         &high_water_mark);
-
     // Keep only the memory space we need.
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
     free(buffer);
@@ -255,32 +249,25 @@ char* osl_irregular_sprint(const osl_irregular_t* const irregular) {
  * this function reads a irregular structure from a string complying to the
  * OpenScop textual format and returns a pointer to this irregular structure.
  * The string should contain only one textual format of a irregular structure.
- * \param  extensions The input string where to find a irregular structure.
+ * \param[in,out] input The input string where to find a irregular structure.
+ *                      Updated to the position after what has been read.
  * \return A pointer to the irregular structure that has been read.
  */
-osl_irregular_t* osl_irregular_sread(char** extensions_fixme) {
-  char *content, *tok;
+osl_irregular_t* osl_irregular_sread(char** input) {
   int i, j;
   osl_irregular_p irregular;
 
-  // FIXME: this is a quick and dirty thing to accept char ** instead
-  //        of char * in the parameter: really do it and update the
-  //        pointer to after what has been read.
-  content = *extensions_fixme;
-
-  if (content == NULL) {
+  if (*input == NULL) {
     OSL_debug("no irregular optional tag");
     return NULL;
   }
 
-  if (strlen(content) > OSL_MAX_STRING)
-    OSL_error("irregular too long");
-
   irregular = osl_irregular_malloc();
 
   // nb statements
-  tok = strtok(content, " \n");
-  irregular->nb_statements = atoi(tok);
+  irregular->nb_statements = osl_util_read_int(NULL, input);
+  if (irregular->nb_statements < 0)
+    OSL_error("negative number of statements");
   OSL_malloc(irregular->predicates, int**,
              sizeof(int*) * irregular->nb_statements);
   OSL_malloc(irregular->nb_predicates, int*,
@@ -289,21 +276,20 @@ osl_irregular_t* osl_irregular_sread(char** extensions_fixme) {
   // get predicats
   for (i = 0; i < irregular->nb_statements; i++) {
     // nb conditions
-    tok = strtok(NULL, " \n");
-    irregular->nb_predicates[i] = atoi(tok);
+    irregular->nb_predicates[i] = osl_util_read_int(NULL, input);
+    if (irregular->nb_predicates[i] < 0)
+      OSL_error("negative number of predicates");
     OSL_malloc(irregular->predicates[i], int*,
                sizeof(int) * irregular->nb_predicates[i]);
-    for (j = 0; j < irregular->nb_predicates[i]; j++) {
-      tok = strtok(NULL, " \n");
-      irregular->predicates[i][j] = atoi(tok);
-    }
+    for (j = 0; j < irregular->nb_predicates[i]; j++)
+      irregular->predicates[i][j] = osl_util_read_int(NULL, input);
   }
   // Get nb predicat
   // control and exits :
-  tok = strtok(NULL, " \n");
-  irregular->nb_control = atoi(tok);
-  tok = strtok(NULL, " \n");
-  irregular->nb_exit = atoi(tok);
+  irregular->nb_control = osl_util_read_int(NULL, input);
+  irregular->nb_exit = osl_util_read_int(NULL, input);
+  if ((irregular->nb_control < 0) || (irregular->nb_exit < 0))
+    OSL_error("negative number of controls or exits");
 
   int nb_predicates = irregular->nb_control + irregular->nb_exit;
 
@@ -313,16 +299,17 @@ osl_irregular_t* osl_irregular_sread(char** extensions_fixme) {
 
   for (i = 0; i < nb_predicates; i++) {
     // Get number of iterators
-    tok = strtok(NULL, " \n");
-    irregular->nb_iterators[i] = atoi(tok);
+    irregular->nb_iterators[i] = osl_util_read_int(NULL, input);
+    if (irregular->nb_iterators[i] < 0)
+      OSL_error("negative number of iterators");
     OSL_malloc(irregular->iterators[i], char**,
                sizeof(char*) * irregular->nb_iterators[i]);
 
     // Get iterators
     for (j = 0; j < irregular->nb_iterators[i]; j++)
-      OSL_strdup(irregular->iterators[i][j], strtok(NULL, " \n"));
+      irregular->iterators[i][j] = osl_util_read_string(NULL, input);
     // Get predicat string
-    OSL_strdup(irregular->body[i], strtok(NULL, "\n"));
+    irregular->body[i] = osl_util_read_line(NULL, input);
   }
 
   return irregular;
-- 
2.43.0


From e6272df3a11514ebabb6cce0fb7ad6fea893aeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 28/67] fix: allocated structures have their user field set to
 NULL

---
 source/extensions/symbols.c | 1 +
 source/relation.c           | 1 +
 source/statement.c          | 1 +
 3 files changed, 3 insertions(+)

diff --git a/source/extensions/symbols.c b/source/extensions/symbols.c
index 3d13185..a239529 100644
--- a/source/extensions/symbols.c
+++ b/source/extensions/symbols.c
@@ -404,6 +404,7 @@ osl_symbols_t* osl_symbols_malloc(void) {
   symbols->datatype = NULL;
   symbols->scope = NULL;
   symbols->extent = NULL;
+  symbols->usr = NULL;
   symbols->next = NULL;
 
   return symbols;
diff --git a/source/relation.c b/source/relation.c
index 5b8bb3b..06d8507 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1630,6 +1630,7 @@ osl_relation_t* osl_relation_pmalloc(int precision, int nb_rows,
     }
   }
 
+  relation->usr = NULL;
   relation->next = NULL;
 
   return relation;
diff --git a/source/statement.c b/source/statement.c
index 3de955b..2bcbf70 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -494,6 +494,7 @@ osl_statement_t* osl_statement_malloc(void) {
   statement->scattering = NULL;
   statement->access = NULL;
   statement->extension = NULL;
+  statement->usr = NULL;
   statement->next = NULL;
 
   return statement;
-- 
2.43.0


From 50dbdcb6e98c4706e0f33e129f9c06e38c5f3ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 29/67] fix: osl_dependence_idump does not modify the
 statements it prints

---
 source/extensions/dependence.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index 2460eb9..6bb982f 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -91,7 +91,7 @@
 void osl_dependence_idump(FILE* const file, const osl_dependence_t* dependence,
                           int level) {
   int j, first = 1;
-  osl_statement_p tmp;
+  osl_statement_t statement;
 
   if (dependence != NULL) { /* Go to the right level. */
     for (j = 0; j < level; j++)
@@ -175,19 +175,25 @@ void osl_dependence_idump(FILE* const file, const osl_dependence_t* dependence,
     for (j = 0; j <= level; j++)
       fprintf(file, "|\t");
     fprintf(file, "Statement label: %d\n", dependence->label_source);
-    tmp = dependence->stmt_source_ptr->next;
-    dependence->stmt_source_ptr->next = NULL;
-    osl_statement_idump(file, dependence->stmt_source_ptr, level + 1);
-    dependence->stmt_source_ptr->next = tmp;
+    if (dependence->stmt_source_ptr != NULL) {
+      statement = *dependence->stmt_source_ptr;
+      statement.next = NULL;
+      osl_statement_idump(file, &statement, level + 1);
+    } else {
+      osl_statement_idump(file, NULL, level + 1);
+    }
 
     /* Print the target statement. */
     for (j = 0; j <= level; j++)
       fprintf(file, "|\t");
     fprintf(file, "Target label: %d\n", dependence->label_target);
-    tmp = dependence->stmt_target_ptr->next;
-    dependence->stmt_target_ptr->next = NULL;
-    osl_statement_idump(file, dependence->stmt_target_ptr, level + 1);
-    dependence->stmt_target_ptr->next = tmp;
+    if (dependence->stmt_target_ptr != NULL) {
+      statement = *dependence->stmt_target_ptr;
+      statement.next = NULL;
+      osl_statement_idump(file, &statement, level + 1);
+    } else {
+      osl_statement_idump(file, NULL, level + 1);
+    }
 
     /* Print the dependence polyhedron. */
     for (j = 0; j <= level; j++)
-- 
2.43.0


From 8667d9ef66b068145ef7b0c25047fea68106c3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 30/67] fix: osl_dependence_sprint reports an unknown
 dependence type

---
 source/extensions/dependence.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index 6bb982f..123663e 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -290,8 +290,7 @@ char* osl_dependence_sprint(const osl_dependence_t* const dependence) {
           type = "RAW_SCALPRIV #(scalar priv)";
           break;
         default:
-          exit(1);
-          break;
+          OSL_error("unknown dependence type");
       }
 
       /* Output dependence information. */
-- 
2.43.0


From 0634982bdf85721824956957d7d1d28d03b8b258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 31/67] fix: dependence reader checks the length of the
 dimension row

---
 source/extensions/dependence.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index 123663e..f0760e6 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -381,6 +381,8 @@ static osl_dependence_p osl_dependence_read_one_dep(char** input,
     tmp++;
     row_size += 1;
   }
+  if (row_size >= OSL_MAX_STRING)
+    OSL_error("dimension information too long");
   strncpy(str, *input, sizeof(char) * row_size);
   str[(tmp - *input)] = '\0';
   /* - Read the information */
-- 
2.43.0


From 222fd6832b8072b6dde14d61dfd5311a54ba9953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 32/67] fix: region and annotation texts report failing
 allocations

---
 source/extensions/annotation.c | 15 ++++-----------
 source/extensions/region.c     | 15 ++++-----------
 2 files changed, 8 insertions(+), 22 deletions(-)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index 6703319..af9a31d 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -85,16 +85,8 @@ int osl_annotation_text_append(osl_annotation_text_t* text, int line_type,
                                char* line) {
   const size_t count = text->count + 1;
 
-  char** lines = realloc(text->lines, count * sizeof *lines);
-  if (!lines)
-    return 1;
-
-  int* types = realloc(text->types, count * sizeof *types);
-  if (!types)
-    return 1;
-
-  text->lines = lines;
-  text->types = types;
+  OSL_realloc(text->lines, char**, count * sizeof *text->lines);
+  OSL_realloc(text->types, int*, count * sizeof *text->types);
 
   text->lines[text->count] = line;
   text->types[text->count] = line_type;
@@ -120,7 +112,8 @@ osl_annotation_text_t osl_annotation_text_clone(
       .lines = 0,
   };
   for (size_t i = 0; i < source->count; ++i) {
-    char* line = strdup(source->lines[i]);
+    char* line;
+    OSL_strdup(line, source->lines[i]);
     osl_annotation_text_append(&destination, source->types[i], line);
   }
   return destination;
diff --git a/source/extensions/region.c b/source/extensions/region.c
index e795341..3fe7912 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -83,16 +83,8 @@ static void osl_region_text_idump(FILE* file, const osl_region_text_t* text,
 int osl_region_text_append(osl_region_text_t* text, int line_type, char* line) {
   const size_t count = text->count + 1;
 
-  char** lines = realloc(text->lines, count * sizeof *lines);
-  if (!lines)
-    return 1;
-
-  int* types = realloc(text->types, count * sizeof *types);
-  if (!types)
-    return 1;
-
-  text->lines = lines;
-  text->types = types;
+  OSL_realloc(text->lines, char**, count * sizeof *text->lines);
+  OSL_realloc(text->types, int*, count * sizeof *text->types);
 
   text->lines[text->count] = line;
   text->types[text->count] = line_type;
@@ -118,7 +110,8 @@ osl_region_text_t osl_region_text_clone(const osl_region_text_t* source) {
       .lines = 0,
   };
   for (size_t i = 0; i < source->count; ++i) {
-    char* line = strdup(source->lines[i]);
+    char* line;
+    OSL_strdup(line, source->lines[i]);
     osl_region_text_append(&destination, source->types[i], line);
   }
   return destination;
-- 
2.43.0


From 3e2baf14cdddb7b1b3d10af2397df77117c6c8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 33/67] fix: annotation functions accept a NULL annotation

---
 source/extensions/annotation.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index af9a31d..416ac16 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -191,8 +191,10 @@ void osl_annotation_idump(FILE* const file, const osl_annotation_t* annotation,
   osl_annotation_idump_indent(file, level);
   fprintf(file, "\n");
 
-  osl_annotation_text_idump(file, &annotation->prefix, level + 2);
-  osl_annotation_text_idump(file, &annotation->suffix, level + 2);
+  if (annotation != NULL) {
+    osl_annotation_text_idump(file, &annotation->prefix, level + 2);
+    osl_annotation_text_idump(file, &annotation->suffix, level + 2);
+  }
 
   /* Last line. */
   osl_annotation_idump_indent(file, level);
@@ -203,6 +205,9 @@ void osl_annotation_dump(FILE* const file, const osl_annotation_t* annotation) {
 }
 
 char* osl_annotation_sprint(const osl_annotation_t* annotation) {
+  if (annotation == NULL)
+    return NULL;
+
   char buffer[OSL_MAX_STRING];
   char* string = NULL;
   size_t high_water_mark = OSL_MAX_STRING;
@@ -285,6 +290,9 @@ osl_annotation_t* osl_annotation_malloc(void) {
 }
 
 void osl_annotation_free(osl_annotation_t* annotation) {
+  if (annotation == NULL)
+    return;
+
   osl_annotation_text_clean(&annotation->prefix);
   osl_annotation_text_clean(&annotation->suffix);
   free(annotation);
@@ -295,6 +303,9 @@ void osl_annotation_free(osl_annotation_t* annotation) {
  *****************************************************************************/
 
 osl_annotation_t* osl_annotation_clone(const osl_annotation_t* const source) {
+  if (source == NULL)
+    return NULL;
+
   osl_annotation_t* const clone = osl_annotation_malloc();
 
   clone->prefix = osl_annotation_text_clone(&source->prefix);
-- 
2.43.0


From 11c928cd1e06af9ad886bbe3994f3a92a13dfc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 34/67] fix: extension readers report negative numbers of
 elements

---
 source/extensions/annotation.c | 6 ++++--
 source/extensions/arrays.c     | 2 ++
 source/extensions/dependence.c | 2 ++
 source/extensions/loop.c       | 9 +++++++--
 source/extensions/region.c     | 8 ++++++--
 source/extensions/scatinfos.c  | 7 ++++++-
 source/extensions/symbols.c    | 2 ++
 7 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index 416ac16..f405e75 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -258,8 +258,10 @@ osl_annotation_t* osl_annotation_sread(char** input) {
 
 #define osl_annotation_sread_text(field)                           \
   do {                                                             \
-    size_t count = (size_t)osl_util_read_int(NULL, input);         \
-    for (size_t j = 0; j < count; ++j) {                           \
+    const int count = osl_util_read_int(NULL, input);              \
+    if (count < 0)                                                 \
+      OSL_error("negative number of lines");                       \
+    for (int j = 0; j < count; ++j) {                              \
       const int line_type = osl_util_read_int(NULL, input);        \
       char* const line = osl_util_read_line(NULL, input);          \
       osl_annotation_text_append(&output->field, line_type, line); \
diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index a7e8df9..e5ebe51 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -199,6 +199,8 @@ osl_arrays_t* osl_arrays_sread(char** input) {
 
   // Find the number of names provided.
   nb_names = osl_util_read_int(NULL, input);
+  if (nb_names < 0)
+    OSL_error("negative number of arrays");
 
   // Allocate the array of id and names.
   arrays = osl_arrays_malloc();
diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index f0760e6..09bd700 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -432,6 +432,8 @@ osl_dependence_t* osl_dependence_psread(char** input, int precision) {
   int i;
   /* Get the number of dependences. */
   int nbdeps = osl_util_read_int(NULL, input);
+  if (nbdeps < 0)
+    OSL_error("negative number of dependences");
 
   /* For each of them, read 1 and shift of the read size. */
   for (i = 0; i < nbdeps; i++) {
diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index 148cfc1..be6aa62 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -267,7 +267,7 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
  */
 osl_loop_t* osl_loop_sread(char** input) {
   size_t i;
-  int nb_loops;
+  int nb_loops, nb_stmts;
   osl_loop_p head;
   osl_loop_p loop;
 
@@ -278,6 +278,8 @@ osl_loop_t* osl_loop_sread(char** input) {
 
   // Find the number of names provided.
   nb_loops = osl_util_read_int(NULL, input);
+  if (nb_loops < 0)
+    OSL_error("negative number of loops");
   if (nb_loops == 0)
     return NULL;
 
@@ -286,7 +288,10 @@ osl_loop_t* osl_loop_sread(char** input) {
 
   while (nb_loops != 0) {
     loop->iter = osl_util_read_string(NULL, input);
-    loop->nb_stmts = (size_t)osl_util_read_int(NULL, input);
+    nb_stmts = osl_util_read_int(NULL, input);
+    if (nb_stmts < 0)
+      OSL_error("negative number of statements");
+    loop->nb_stmts = (size_t)nb_stmts;
 
     OSL_malloc(loop->stmt_ids, int*, loop->nb_stmts * sizeof(int));
     for (i = 0; i < loop->nb_stmts; i++)
diff --git a/source/extensions/region.c b/source/extensions/region.c
index 3fe7912..20c82eb 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -297,6 +297,8 @@ osl_region_t* osl_region_sread(char** input) {
   }
 
   const int region_count = osl_util_read_int(NULL, input);
+  if (region_count < 0)
+    OSL_error("negative number of regions");
   if (!region_count)
     return NULL;
 
@@ -307,8 +309,10 @@ osl_region_t* osl_region_sread(char** input) {
 
 #define osl_region_sread_text(field)                            \
   do {                                                          \
-    size_t line_count = (size_t)osl_util_read_int(NULL, input); \
-    for (size_t j = 0; j < line_count; ++j) {                   \
+    const int line_count = osl_util_read_int(NULL, input);      \
+    if (line_count < 0)                                         \
+      OSL_error("negative number of lines");                    \
+    for (int j = 0; j < line_count; ++j) {                      \
       const int line_type = osl_util_read_int(NULL, input);     \
       char* const line = osl_util_read_line(NULL, input);       \
       osl_region_text_append(&current->field, line_type, line); \
diff --git a/source/extensions/scatinfos.c b/source/extensions/scatinfos.c
index 1b61ca6..cc2e433 100644
--- a/source/extensions/scatinfos.c
+++ b/source/extensions/scatinfos.c
@@ -234,6 +234,7 @@ char* osl_scatinfos_sprint(const osl_scatinfos_t* const scatinfos) {
  * \return A pointer to the scatinfos structure that has been read.
  */
 osl_scatinfos_t* osl_scatinfos_sread(char** input) {
+  int nb_scatdims;
   osl_scatinfos_p scatinfos;
 
   if (*input == NULL) {
@@ -241,8 +242,12 @@ osl_scatinfos_t* osl_scatinfos_sread(char** input) {
     return NULL;
   }
 
+  nb_scatdims = osl_util_read_int(NULL, input);
+  if (nb_scatdims < 0)
+    OSL_error("negative number of scattering dimensions");
+
   scatinfos = osl_scatinfos_malloc();
-  scatinfos->nb_scatdims = (size_t)osl_util_read_int(NULL, input);
+  scatinfos->nb_scatdims = (size_t)nb_scatdims;
 
   OSL_malloc(scatinfos->parallel, int*, scatinfos->nb_scatdims * sizeof(int));
   for (size_t i = 0; i < scatinfos->nb_scatdims; i++)
diff --git a/source/extensions/symbols.c b/source/extensions/symbols.c
index a239529..d26dd07 100644
--- a/source/extensions/symbols.c
+++ b/source/extensions/symbols.c
@@ -329,6 +329,8 @@ osl_symbols_t* osl_symbols_sread(char** input) {
   // Find the number of names provided.
   nb_symbols = osl_util_read_int(NULL, input);
 
+  if (nb_symbols < 0)
+    OSL_error("negative number of symbols");
   if (nb_symbols == 0)
     return NULL;
 
-- 
2.43.0


From c414851e19a84f329f8c4e9d91f185db64d568f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 35/67] fix: osl_arrays_to_strings ignores identifiers it
 cannot place

---
 source/extensions/arrays.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index e5ebe51..95523b7 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -367,6 +367,10 @@ osl_strings_t* osl_arrays_to_strings(const osl_arrays_t* const arrays) {
   // Build a strings structure for this number of ids.
   strings = osl_strings_generate("Dummy", max_id);
   for (i = 0; i < arrays->nb_names; i++) {
+    if (arrays->id[i] < 1) {
+      OSL_warning("array identifier lower than 1");
+      continue;
+    }
     free(strings->string[arrays->id[i] - 1]);
     OSL_strdup(strings->string[arrays->id[i] - 1], arrays->names[i]);
   }
-- 
2.43.0


From 4a6ced8405b13e296c7d2b8f6f7aaeb98f89a448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 36/67] fix: osl_scop_remove_unions keeps all the statements

---
 source/scop.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index 424d60d..5930c50 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -666,9 +666,9 @@ osl_scop_t* osl_scop_remove_unions(const osl_scop_t* scop) {
         scop_statement_ptr->next = new_statement;
         scop_statement_ptr = scop_statement_ptr->next;
       }
+      while (scop_statement_ptr && scop_statement_ptr->next != NULL)
+        scop_statement_ptr = scop_statement_ptr->next;
     }
-    while (scop_statement_ptr && scop_statement_ptr->next != NULL)
-      scop_statement_ptr = scop_statement_ptr->next;
 
     new_scop->context = osl_relation_clone(scop->context);
     new_scop->extension = osl_generic_clone(scop->extension);
-- 
2.43.0


From d565970ef2fbe66be3fa129430ab8befa96fefcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 37/67] fix: osl_scop_remove_unions reports a failing
 allocation

---
 source/scop.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index 5930c50..0a94c78 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -672,10 +672,8 @@ osl_scop_t* osl_scop_remove_unions(const osl_scop_t* scop) {
 
     new_scop->context = osl_relation_clone(scop->context);
     new_scop->extension = osl_generic_clone(scop->extension);
-    if (scop->language != NULL) {
-      new_scop->language = (char*)malloc(strlen(scop->language) + 1);
-      new_scop->language = strcpy(new_scop->language, scop->language);
-    }
+    if (scop->language != NULL)
+      OSL_strdup(new_scop->language, scop->language);
     new_scop->parameters = osl_generic_clone(scop->parameters);
     new_scop->registry = osl_interface_clone(scop->registry);
     new_scop->version = scop->version;
-- 
2.43.0


From 8d547c6c9b30603d211144d8460493e71a180a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 38/67] fix: osl_relation_remove_part releases the first part
 as the others

---
 source/relation.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/relation.c b/source/relation.c
index 06d8507..25daba8 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -2964,7 +2964,9 @@ void osl_relation_remove_part(osl_relation_t** relation_list,
   }
 
   if (*relation_list == part) {
-    *relation_list = (*relation_list)->next;
+    *relation_list = part->next;
+    part->next = NULL;
+    osl_relation_free(part);
     return;
   }
 
-- 
2.43.0


From 84b539b83aa1ab7cfa00a94a43a8da225eaa3363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 39/67] fix: osl_relation_subexpression does not modify the
 relation it prints

---
 source/relation.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 25daba8..e09cd91 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -416,18 +416,19 @@ char* osl_relation_subexpression(const osl_relation_t* relation, int row,
                                  int start, int stop, int oppose,
                                  char** strings) {
   int i, first = 1, constant;
+  size_t high_water_mark = OSL_MAX_STRING;
   char* sval;
   char* sline;
+  osl_int_t opposite;
 
-  OSL_malloc(sline, char*, OSL_MAX_STRING * sizeof(char));
+  OSL_malloc(sline, char*, high_water_mark * sizeof(char));
   sline[0] = '\0';
+  osl_int_init(relation->precision, &opposite);
 
   // Create the expression. The constant is a special case.
   for (i = start; i <= stop; i++) {
-    if (oppose) {
-      osl_int_oppose(relation->precision, &relation->m[row][i],
-                     relation->m[row][i]);
-    }
+    if (oppose)
+      osl_int_oppose(relation->precision, &opposite, relation->m[row][i]);
 
     if (i == relation->nb_columns - 1)
       constant = 1;
@@ -435,15 +436,12 @@ char* osl_relation_subexpression(const osl_relation_t* relation, int row,
       constant = 0;
 
     sval = osl_relation_expression_element(
-        relation->m[row][i], relation->precision, &first, constant, strings[i]);
-
-    if (oppose) {
-      osl_int_oppose(relation->precision, &relation->m[row][i],
-                     relation->m[row][i]);
-    }
-    strcat(sline, sval);
+        oppose ? opposite : relation->m[row][i], relation->precision, &first,
+        constant, strings[i]);
+    osl_util_safe_strcat(&sline, sval, &high_water_mark);
     free(sval);
   }
+  osl_int_clear(relation->precision, &opposite);
 
   return sline;
 }
-- 
2.43.0


From 622feffde50bcb6c840b891ab4b37d522bc753a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 40/67] fix: relation printers accept names and rows of any
 length

---
 source/relation.c | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index e09cd91..59853df 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -273,10 +273,11 @@ char* osl_relation_expression_element(const osl_int_t val, int precision,
                                       int* const first, int cst,
                                       const char* const name) {
   char *temp, *body, *sval;
+  size_t size = OSL_MAX_STRING + (name != NULL ? strlen(name) : 0);
 
-  OSL_malloc(temp, char*, OSL_MAX_STRING * sizeof(char));
+  OSL_malloc(temp, char*, size * sizeof(char));
   OSL_malloc(body, char*, OSL_MAX_STRING * sizeof(char));
-  OSL_malloc(sval, char*, OSL_MAX_STRING * sizeof(char));
+  OSL_malloc(sval, char*, size * sizeof(char));
 
   body[0] = '\0';
   sval[0] = '\0';
@@ -543,8 +544,8 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
 
     expression = osl_relation_subexpression(
         relation, row, 1, relation->nb_output_dims, sign < 0, strings);
-    snprintf(buffer, OSL_MAX_STRING, "   ## %s", expression);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, "   ## ", &high_water_mark);
+    osl_util_safe_strcat(&string, expression, &high_water_mark);
     free(expression);
 
     // We don't print the right hand side if it's an array identifier.
@@ -553,20 +554,21 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
       expression = osl_relation_subexpression(
           relation, row, relation->nb_output_dims + 1, relation->nb_columns - 1,
           sign > 0, strings);
-      snprintf(buffer, OSL_MAX_STRING, " == %s", expression);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, " == ", &high_water_mark);
+      osl_util_safe_strcat(&string, expression, &high_water_mark);
       free(expression);
     } else {
-      snprintf(buffer, OSL_MAX_STRING, " == %s",
-               arrays[osl_relation_get_array_id(relation) - 1]);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, " == ", &high_water_mark);
+      osl_util_safe_strcat(&string,
+                           arrays[osl_relation_get_array_id(relation) - 1],
+                           &high_water_mark);
     }
   } else {
     // Second case : general case.
 
     expression = osl_relation_expression(relation, row, strings);
-    snprintf(buffer, OSL_MAX_STRING, "   ## %s", expression);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, "   ## ", &high_water_mark);
+    osl_util_safe_strcat(&string, expression, &high_water_mark);
     free(expression);
 
     if (osl_int_zero(relation->precision, relation->m[row][0]))
@@ -600,7 +602,10 @@ char* osl_relation_column_string(const osl_relation_t* relation,
   char* scolumn;
   char temp[OSL_MAX_STRING];
 
-  OSL_malloc(scolumn, char*, OSL_MAX_STRING);
+  // Each name takes OSL_FMT_LENGTH characters plus a separator.
+  OSL_malloc(scolumn, char*,
+             OSL_MAX_STRING +
+                 (size_t)relation->nb_columns * (OSL_FMT_LENGTH + 1));
 
   index_output_dims = 1;
   index_input_dims = index_output_dims + relation->nb_output_dims;
@@ -674,7 +679,10 @@ char* osl_relation_column_string_scoplib(const osl_relation_t* relation,
   char* scolumn;
   char temp[OSL_MAX_STRING];
 
-  OSL_malloc(scolumn, char*, OSL_MAX_STRING);
+  // Each name takes OSL_FMT_LENGTH characters plus a separator.
+  OSL_malloc(scolumn, char*,
+             OSL_MAX_STRING +
+                 (size_t)relation->nb_columns * (OSL_FMT_LENGTH + 1));
 
   index_output_dims = 1;
   index_input_dims = index_output_dims + relation->nb_output_dims;
@@ -833,8 +841,7 @@ char* osl_relation_spprint_polylib(const osl_relation_t* relation,
 
     if (relation->nb_rows > 0) {
       scolumn = osl_relation_column_string(relation, name_array);
-      snprintf(buffer, OSL_MAX_STRING, "%s", scolumn);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, scolumn, &high_water_mark);
       free(scolumn);
     }
 
@@ -994,8 +1001,7 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
       // Print column names in comment
       if (relation->nb_rows > 0) {
         scolumn = osl_relation_column_string_scoplib(relation, name_array);
-        snprintf(buffer, OSL_MAX_STRING, "%s", scolumn);
-        osl_util_safe_strcat(&string, buffer, &high_water_mark);
+        osl_util_safe_strcat(&string, scolumn, &high_water_mark);
         free(scolumn);
       }
 
-- 
2.43.0


From c17b80591372a4d86a17a0f6f500555b625b109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 41/67] fix: readers cope with comments longer than the line
 buffer

---
 source/util.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/util.c b/source/util.c
index 493aec8..3cad1b6 100644
--- a/source/util.c
+++ b/source/util.c
@@ -86,9 +86,19 @@
  */
 char* osl_util_skip_blank_and_comments(FILE* file, char* str) {
   char* start;
+  int c;
 
   do {
     start = fgets(str, OSL_MAX_STRING, file);
+    if ((start != NULL) && (strlen(str) == OSL_MAX_STRING - 1) &&
+        (str[OSL_MAX_STRING - 2] != '\n')) {
+      // The line is longer than the buffer: only a comment may be cut.
+      if (strchr(str, '#') == NULL)
+        OSL_error("line too long");
+      do {
+        c = fgetc(file);
+      } while ((c != EOF) && (c != '\n'));
+    }
     while ((start != NULL) && isspace(*start) && (*start != '\n'))
       start++;
   } while (start != NULL && (*start == '#' || *start == '\n'));
-- 
2.43.0


From debeb8fc097cb7852863e817002c5e7ed323fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 42/67] fix: readers report announced extensions which are
 missing

---
 source/scop.c      | 5 ++++-
 source/statement.c | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/scop.c b/source/scop.c
index 0a94c78..4d8e080 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -457,8 +457,11 @@ osl_scop_t* osl_scop_pread(FILE* const file, osl_interface_t* const registry,
     scop->context = osl_relation_pread(file, precision);
 
     // Read the parameters.
-    if (osl_util_read_int(file, NULL) > 0)
+    if (osl_util_read_int(file, NULL) > 0) {
       scop->parameters = osl_generic_read_one(file, scop->registry);
+      if ((scop->parameters == NULL) && (feof(file) || ferror(file)))
+        OSL_error("no parameters while they were expected");
+    }
 
     //
     // III. STATEMENT PART
diff --git a/source/statement.c b/source/statement.c
index 2bcbf70..faf33ae 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -451,6 +451,8 @@ osl_statement_t* osl_statement_pread(FILE* const file,
     nb_ext = osl_util_read_int(file, NULL);
     for (i = 0; i < nb_ext; i++) {
       new = osl_generic_read_one(file, registry);
+      if ((new == NULL) && (feof(file) || ferror(file)))
+        OSL_error("not enough statement extensions");
       osl_generic_add(&stmt->extension, new);
     }
   }
-- 
2.43.0


From 385b1f629f41065cb2b64840c9fb3fa3b84c2063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 43/67] fix: readers report read errors

---
 source/util.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/util.c b/source/util.c
index 3cad1b6..77e4180 100644
--- a/source/util.c
+++ b/source/util.c
@@ -90,6 +90,8 @@ char* osl_util_skip_blank_and_comments(FILE* file, char* str) {
 
   do {
     start = fgets(str, OSL_MAX_STRING, file);
+    if (ferror(file))
+      OSL_error("read error");
     if ((start != NULL) && (strlen(str) == OSL_MAX_STRING - 1) &&
         (str[OSL_MAX_STRING - 2] != '\n')) {
       // The line is longer than the buffer: only a comment may be cut.
-- 
2.43.0


From 8a2842dd861e3c95e9f857d2ae02adf2065dd83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 44/67] fix: dumping a clay, comment or textual without text is
 safe

---
 source/extensions/clay.c    | 2 +-
 source/extensions/comment.c | 2 +-
 source/extensions/textual.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/extensions/clay.c b/source/extensions/clay.c
index 285b55e..0f7c24c 100644
--- a/source/extensions/clay.c
+++ b/source/extensions/clay.c
@@ -102,7 +102,7 @@ void osl_clay_idump(FILE* const file, const osl_clay_t* const clay, int level) {
       fprintf(file, "|\t");
 
     // Display the clay script (without any carriage return).
-    OSL_strdup(tmp, clay->script);
+    OSL_strdup(tmp, ((clay->script != NULL) ? clay->script : ""));
     for (l = 0; l < strlen(tmp); l++)
       if (tmp[l] == '\n')
         tmp[l] = ' ';
diff --git a/source/extensions/comment.c b/source/extensions/comment.c
index e7f0ebb..d0babc3 100644
--- a/source/extensions/comment.c
+++ b/source/extensions/comment.c
@@ -103,7 +103,7 @@ void osl_comment_idump(FILE* const file, const osl_comment_t* const comment,
       fprintf(file, "|\t");
 
     // Display the comment message (without any carriage return).
-    OSL_strdup(tmp, comment->comment);
+    OSL_strdup(tmp, ((comment->comment != NULL) ? comment->comment : ""));
     for (l = 0; l < strlen(tmp); l++)
       if (tmp[l] == '\n')
         tmp[l] = ' ';
diff --git a/source/extensions/textual.c b/source/extensions/textual.c
index 1c6782d..f6fc9fc 100644
--- a/source/extensions/textual.c
+++ b/source/extensions/textual.c
@@ -97,7 +97,7 @@ void osl_textual_idump(FILE* const file, const osl_textual_t* const textual,
     fprintf(file, "+-- osl_textual_t: ");
 
     // Display the textual message (without any carriage return).
-    OSL_strdup(tmp, textual->textual);
+    OSL_strdup(tmp, ((textual->textual != NULL) ? textual->textual : ""));
     for (j = 0; j < (int)strlen(tmp); j++)
       if (tmp[j] == '\n')
         tmp[j] = ' ';
-- 
2.43.0


From 8d32bceb3ba3cabf2870898ea7155963d8e68186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 45/67] fix: equality tests accept missing texts

---
 source/extensions/clay.c        | 7 +++++++
 source/extensions/comment.c     | 3 ++-
 source/extensions/coordinates.c | 3 ++-
 source/interface.c              | 4 +++-
 4 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/extensions/clay.c b/source/extensions/clay.c
index 0f7c24c..83f3be7 100644
--- a/source/extensions/clay.c
+++ b/source/extensions/clay.c
@@ -267,6 +267,13 @@ bool osl_clay_equal(const osl_clay_t* const c1, const osl_clay_t* const c2) {
     return 0;
   }
 
+  if ((c1->script == NULL) || (c2->script == NULL)) {
+    if (c1->script == c2->script)
+      return 1;
+    OSL_info("clay scripts are not the same");
+    return 0;
+  }
+
   if (strcmp(c1->script, c2->script)) {
     OSL_info("clay scripts are not the same");
     return 0;
diff --git a/source/extensions/comment.c b/source/extensions/comment.c
index d0babc3..f7233cc 100644
--- a/source/extensions/comment.c
+++ b/source/extensions/comment.c
@@ -270,7 +270,8 @@ bool osl_comment_equal(const osl_comment_t* const c1,
     return 0;
   }
 
-  if (strcmp(c1->comment, c2->comment)) {
+  if ((c1->comment != NULL) && (c2->comment != NULL) &&
+      strcmp(c1->comment, c2->comment)) {
     // Well, the test does not apply well on textual content but the idea
     // is here (see osl_generic_sprint if you want to understand the problem).
     // OSL_info("comments are not the same");
diff --git a/source/extensions/coordinates.c b/source/extensions/coordinates.c
index c0551c3..a29fdcd 100644
--- a/source/extensions/coordinates.c
+++ b/source/extensions/coordinates.c
@@ -307,7 +307,8 @@ bool osl_coordinates_equal(const osl_coordinates_t* const c1,
   if (((c1 == NULL) && (c2 != NULL)) || ((c1 != NULL) && (c2 == NULL)))
     return 0;
 
-  if (strcmp(c1->name, c2->name)) {
+  if (((c1->name == NULL) != (c2->name == NULL)) ||
+      ((c1->name != NULL) && strcmp(c1->name, c2->name))) {
     OSL_info("file names are not the same");
     return 0;
   }
diff --git a/source/interface.c b/source/interface.c
index 9e65bb9..b80a54a 100644
--- a/source/interface.c
+++ b/source/interface.c
@@ -320,7 +320,9 @@ bool osl_interface_equal(const osl_interface_t* const interface1,
       ((interface1 != NULL) && (interface2 == NULL)))
     return 0;
 
-  if (strcmp(interface1->URI, interface2->URI) ||
+  if (((interface1->URI == NULL) != (interface2->URI == NULL)) ||
+      ((interface1->URI != NULL) &&
+       strcmp(interface1->URI, interface2->URI)) ||
       (interface1->idump != interface2->idump) ||
       (interface1->sprint != interface2->sprint) ||
       (interface1->sread != interface2->sread) ||
-- 
2.43.0


From 5abb2e77d38ea97bab8cec52b12101c22cd97386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 46/67] fix: changing the precision of an integer keeps values
 beyond the int range

---
 source/int.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/int.c b/source/int.c
index 24c3773..9fbd6cc 100644
--- a/source/int.c
+++ b/source/int.c
@@ -1624,8 +1624,9 @@ int osl_int_divisible(const int precision, const osl_int_t val1,
 void osl_int_set_precision(const int precision, const int new_precision,
                            osl_int_t* const i) {
   if (i != NULL && precision != new_precision) {
-    int v = osl_int_get_si(precision, *i);  // TODO Fix to avoid overflow
+    long long int v = osl_int_get_long_long(precision, *i);
     osl_int_clear(precision, i);
-    osl_int_init_set_si(new_precision, i, v);
+    osl_int_init(new_precision, i);
+    osl_int_set_long_long(new_precision, i, v);
   }
 }
-- 
2.43.0


From 2d25705dc9326419d0df1fa0f8aaf15374e078b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 47/67] fix: osl_int_init_set_long and
 osl_int_init_set_long_long initialise multiple precision integers

---
 source/int.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/source/int.c b/source/int.c
index 9fbd6cc..6689697 100644
--- a/source/int.c
+++ b/source/int.c
@@ -489,11 +489,7 @@ void osl_int_init_set_si(const int precision, osl_int_t* const variable,
  */
 void osl_int_init_set_long(const int precision, osl_int_t* const variable,
                            const long int i) {
-#ifdef OSL_GMP_IS_HERE
-  if (precision == OSL_PRECISION_MP) {
-    OSL_malloc(variable->mp, void*, sizeof(mpz_t));
-  }
-#endif
+  osl_int_init(precision, variable);
   osl_int_set_long(precision, variable, i);
 }
 
@@ -505,11 +501,7 @@ void osl_int_init_set_long(const int precision, osl_int_t* const variable,
  */
 void osl_int_init_set_long_long(const int precision, osl_int_t* const variable,
                                 const long long int i) {
-#ifdef OSL_GMP_IS_HERE
-  if (precision == OSL_PRECISION_MP) {
-    OSL_malloc(variable->mp, void*, sizeof(mpz_t));
-  }
-#endif
+  osl_int_init(precision, variable);
   osl_int_set_long_long(precision, variable, i);
 }
 
-- 
2.43.0


From 7a7f50f3c6940b77fba14662b30e281a78d25271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 48/67] fix: osl_scop_register_extension reads the textual form
 of the extensions

---
 source/scop.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index 4d8e080..12e7a66 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -880,15 +880,16 @@ int osl_scop_get_nb_parameters(const osl_scop_t* scop) {
  * \param interface The extension interface to register within the scop.
  */
 void osl_scop_register_extension(osl_scop_t* scop, osl_interface_t* interface) {
-  osl_generic_p textual, new;
+  osl_textual_p textual;
+  osl_generic_p new;
   char* extension_string;
 
   if ((interface != NULL) && (scop != NULL)) {
     osl_interface_add(&scop->registry, interface);
 
-    textual = osl_generic_lookup(scop->extension, interface->URI);
-    if (textual != NULL) {
-      extension_string = ((osl_textual_p)textual->data)->textual;
+    textual = osl_generic_lookup(scop->extension, OSL_URI_TEXTUAL);
+    if ((textual != NULL) && (textual->textual != NULL)) {
+      extension_string = textual->textual;
       new = osl_generic_sread(&extension_string, interface);
       osl_generic_add(&scop->extension, new);
     }
-- 
2.43.0


From 8832143bf37d3fe5f80035c7401461848ef3b85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 49/67] fix: print relations whose names or dimensions do not
 match

---
 source/relation.c | 69 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 15 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 59853df..14e8200 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -330,6 +330,26 @@ char* osl_relation_expression_element(const osl_int_t val, int precision,
   return (sval);
 }
 
+/**
+ * osl_relation_name internal function:
+ * this function returns a copy of the ith name of a list of names, or a
+ * generated one when the list has no such name.
+ * \param[in] names  The list of names.
+ * \param[in] i      The index of the name.
+ * \param[in] prefix The prefix of the generated names.
+ * \return A copy of the ith name.
+ */
+static char* osl_relation_name(const osl_strings_t* names, int i,
+                               const char* prefix) {
+  char temp[OSL_MAX_STRING];
+
+  if ((names != NULL) && ((size_t)i < osl_strings_size(names)))
+    return osl_util_strdup(names->string[i]);
+
+  snprintf(temp, OSL_MAX_STRING, "%s%d", prefix, i + 1);
+  return osl_util_strdup(temp);
+}
+
 /**
  * osl_relation_strings function:
  * this function creates a NULL-terminated array of strings from an
@@ -337,7 +357,8 @@ char* osl_relation_expression_element(const osl_int_t val, int precision,
  * corresponding to the ith column of the constraint matrix.
  * \param[in] relation The relation for which we need an array of names.
  * \param[in] names    The set of names for each element.
- * \return An array of strings with one string per constraint matrix column.
+ * \return An array of strings with one string per constraint matrix column,
+ *         NULL if the dimensions do not match the constraint matrix columns.
  */
 char** osl_relation_strings(const osl_relation_t* relation,
                             const osl_names_t* names) {
@@ -350,6 +371,15 @@ char** osl_relation_strings(const osl_relation_t* relation,
     return NULL;
   }
 
+  if ((relation->nb_output_dims < 0) || (relation->nb_input_dims < 0) ||
+      (relation->nb_local_dims < 0) || (relation->nb_parameters < 0) ||
+      ((long long)relation->nb_output_dims + relation->nb_input_dims +
+           relation->nb_local_dims + relation->nb_parameters + 2 !=
+       relation->nb_columns)) {
+    OSL_debug("relation dimensions do not match its columns");
+    return NULL;
+  }
+
   OSL_malloc(strings, char**,
              ((size_t)relation->nb_columns + 1) * sizeof(char*));
   strings[relation->nb_columns] = NULL;
@@ -361,7 +391,8 @@ char** osl_relation_strings(const osl_relation_t* relation,
   // 2. Output dimensions.
   if (osl_relation_is_access(relation)) {
     // The first output dimension is the array name.
-    OSL_strdup(strings[offset], "Arr");
+    if (relation->nb_output_dims > 0)
+      OSL_strdup(strings[offset], "Arr");
     // The other ones are the array dimensions [1]...[n]
     for (i = offset + 1; i < relation->nb_output_dims + offset; i++) {
       sprintf(temp, "[%d]", i - 1);
@@ -370,28 +401,28 @@ char** osl_relation_strings(const osl_relation_t* relation,
   } else if ((relation->type == OSL_TYPE_DOMAIN) ||
              (relation->type == OSL_TYPE_CONTEXT)) {
     for (i = offset; i < relation->nb_output_dims + offset; i++) {
-      OSL_strdup(strings[i], names->iterators->string[i - offset]);
+      strings[i] = osl_relation_name(names->iterators, i - offset, "i");
     }
   } else {
     for (i = offset; i < relation->nb_output_dims + offset; i++) {
-      OSL_strdup(strings[i], names->scatt_dims->string[i - offset]);
+      strings[i] = osl_relation_name(names->scatt_dims, i - offset, "c");
     }
   }
   offset += relation->nb_output_dims;
 
   // 3. Input dimensions.
   for (i = offset; i < relation->nb_input_dims + offset; i++)
-    OSL_strdup(strings[i], names->iterators->string[i - offset]);
+    strings[i] = osl_relation_name(names->iterators, i - offset, "i");
   offset += relation->nb_input_dims;
 
   // 4. Local dimensions.
   for (i = offset; i < relation->nb_local_dims + offset; i++)
-    OSL_strdup(strings[i], names->local_dims->string[i - offset]);
+    strings[i] = osl_relation_name(names->local_dims, i - offset, "l");
   offset += relation->nb_local_dims;
 
   // 5. Parameters.
   for (i = offset; i < relation->nb_parameters + offset; i++)
-    OSL_strdup(strings[i], names->parameters->string[i - offset]);
+    strings[i] = osl_relation_name(names->parameters, i - offset, "P");
   offset += relation->nb_parameters;
 
   // 6. Scalar.
@@ -525,7 +556,8 @@ int osl_relation_is_simple_output(const osl_relation_t* relation, int row) {
  */
 char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
                                   char** strings, char** arrays) {
-  int sign;
+  int i, sign;
+  int array_id = OSL_UNDEFINED;
   size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
   char* expression;
@@ -549,8 +581,17 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
     free(expression);
 
     // We don't print the right hand side if it's an array identifier.
-    if (!osl_relation_is_access(relation) ||
-        osl_int_zero(relation->precision, relation->m[row][1])) {
+    if (osl_relation_is_access(relation) &&
+        !osl_int_zero(relation->precision, relation->m[row][1]))
+      array_id = osl_relation_get_array_id(relation);
+
+    // The array may have no (valid) identifier or no name.
+    for (i = 0; i < array_id; i++) {
+      if ((arrays == NULL) || (arrays[i] == NULL))
+        array_id = OSL_UNDEFINED;
+    }
+
+    if (array_id == OSL_UNDEFINED) {
       expression = osl_relation_subexpression(
           relation, row, relation->nb_output_dims + 1, relation->nb_columns - 1,
           sign > 0, strings);
@@ -559,9 +600,7 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
       free(expression);
     } else {
       osl_util_safe_strcat(&string, " == ", &high_water_mark);
-      osl_util_safe_strcat(&string,
-                           arrays[osl_relation_get_array_id(relation) - 1],
-                           &high_water_mark);
+      osl_util_safe_strcat(&string, arrays[array_id - 1], &high_water_mark);
     }
   } else {
     // Second case : general case.
@@ -839,7 +878,7 @@ char* osl_relation_spprint_polylib(const osl_relation_t* relation,
              relation->nb_parameters);
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
-    if (relation->nb_rows > 0) {
+    if ((relation->nb_rows > 0) && (name_array != NULL)) {
       scolumn = osl_relation_column_string(relation, name_array);
       osl_util_safe_strcat(&string, scolumn, &high_water_mark);
       free(scolumn);
@@ -999,7 +1038,7 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
       }
 
       // Print column names in comment
-      if (relation->nb_rows > 0) {
+      if ((relation->nb_rows > 0) && (name_array != NULL)) {
         scolumn = osl_relation_column_string_scoplib(relation, name_array);
         osl_util_safe_strcat(&string, scolumn, &high_water_mark);
         free(scolumn);
-- 
2.43.0


From c3fb9115b2099a96b3bba7112229312ab74fc394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 50/67] fix: equality of lists in any order counts repeated
 elements

---
 source/extensions/arrays.c  | 17 ++++++++-------
 source/extensions/extbody.c | 17 ++++++++-------
 source/extensions/loop.c    | 42 ++++++++++++++++++-------------------
 3 files changed, 39 insertions(+), 37 deletions(-)

diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index 95523b7..188571f 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -305,7 +305,7 @@ osl_arrays_t* osl_arrays_clone(const osl_arrays_t* const arrays) {
  */
 bool osl_arrays_equal(const osl_arrays_t* const a1,
                       const osl_arrays_t* const a2) {
-  int i, j, found;
+  int i, j, count1, count2;
 
   if (a1 == a2)
     return 1;
@@ -322,16 +322,17 @@ bool osl_arrays_equal(const osl_arrays_t* const a1,
   }
 
   // We accept a different order of the names, as long as the identifiers
-  // are the same.
+  // are the same (and present the same number of times).
   for (i = 0; i < a1->nb_names; i++) {
-    found = 0;
+    count1 = 0;
+    count2 = 0;
     for (j = 0; j < a2->nb_names; j++) {
-      if ((a1->id[i] == a2->id[j]) && (!strcmp(a1->names[i], a2->names[j]))) {
-        found = 1;
-        break;
-      }
+      if ((a1->id[i] == a1->id[j]) && (!strcmp(a1->names[i], a1->names[j])))
+        count1++;
+      if ((a1->id[i] == a2->id[j]) && (!strcmp(a1->names[i], a2->names[j])))
+        count2++;
     }
-    if (found != 1) {
+    if (count1 != count2) {
       OSL_info("arrays are not the same");
       return 0;
     }
diff --git a/source/extensions/extbody.c b/source/extensions/extbody.c
index f7d03eb..2a386e3 100644
--- a/source/extensions/extbody.c
+++ b/source/extensions/extbody.c
@@ -311,7 +311,7 @@ osl_extbody_t* osl_extbody_clone(const osl_extbody_t* const ebody) {
  */
 bool osl_extbody_equal(const osl_extbody_t* const e1,
                        const osl_extbody_t* const e2) {
-  size_t i, j, found;
+  size_t i, j, count1, count2;
 
   if (e1 == e2)
     return 1;
@@ -328,16 +328,17 @@ bool osl_extbody_equal(const osl_extbody_t* const e1,
   }
 
   // We accept a different order of the start/length, as long as the
-  // identifiers are the same.
+  // identifiers are the same (and present the same number of times).
   for (i = 0; i < e1->nb_access; i++) {
-    found = 0;
+    count1 = 0;
+    count2 = 0;
     for (j = 0; j < e2->nb_access; j++) {
-      if ((e1->start[i] == e2->start[j]) && (e1->length[i] == e2->length[j])) {
-        found = 1;
-        break;
-      }
+      if ((e1->start[i] == e1->start[j]) && (e1->length[i] == e1->length[j]))
+        count1++;
+      if ((e1->start[i] == e2->start[j]) && (e1->length[i] == e2->length[j]))
+        count2++;
     }
-    if (found != 1) {
+    if (count1 != count2) {
       OSL_info("extbody are not the same");
       return 0;
     }
diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index be6aa62..4fca17f 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -458,7 +458,7 @@ osl_loop_t* osl_loop_clone(const osl_loop_t* loop) {
  */
 bool osl_loop_equal_one(const osl_loop_t* const a1,
                         const osl_loop_t* const a2) {
-  size_t i, j, found;
+  size_t i, j, count1, count2;
 
   if (a1 == a2)
     return 1;
@@ -481,16 +481,17 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
     return 0;
   }
   // We accept a different order of the names, as long as the identifiers
-  // are the same.
+  // are the same (and present the same number of times).
   for (i = 0; i < a1->nb_stmts; i++) {
-    found = 0;
+    count1 = 0;
+    count2 = 0;
     for (j = 0; j < a2->nb_stmts; j++) {
-      if (a1->stmt_ids[i] == a2->stmt_ids[j]) {
-        found = 1;
-        break;
-      }
+      if (a1->stmt_ids[i] == a1->stmt_ids[j])
+        count1++;
+      if (a1->stmt_ids[i] == a2->stmt_ids[j])
+        count2++;
     }
-    if (found != 1) {
+    if (count1 != count2) {
       // OSL_info("loop are not the same (stmt ids)");
       return 0;
     }
@@ -533,7 +534,9 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
  * \return        1 if a1 and a2 are the same (content-wise), 0 otherwise.
  */
 bool osl_loop_equal(const osl_loop_t* a1, const osl_loop_t* a2) {
-  int found = 0;
+  const osl_loop_t* loop;
+  const osl_loop_t* temp;
+  int count1, count2;
 
   if (a1 == a2)
     return 1;
@@ -548,23 +551,20 @@ bool osl_loop_equal(const osl_loop_t* a1, const osl_loop_t* a2) {
     return 0;
   }
 
-  while (a1) {
-    found = 0;
-    const osl_loop_t* temp = a2;
+  // Each loop must be present the same number of times in both lists.
+  for (loop = a1; loop != NULL; loop = loop->next) {
+    count1 = 0;
+    for (temp = a1; temp != NULL; temp = temp->next)
+      count1 += osl_loop_equal_one(loop, temp);
 
-    while (temp) {
-      if (osl_loop_equal_one(a1, temp) == 1) {
-        found = 1;
-        break;
-      }
-      temp = temp->next;
-    }
+    count2 = 0;
+    for (temp = a2; temp != NULL; temp = temp->next)
+      count2 += osl_loop_equal_one(loop, temp);
 
-    if (found != 1) {
+    if (count1 != count2) {
       OSL_info("list of loops are not the same");
       return 0;
     }
-    a1 = a1->next;
   }
 
   return 1;
-- 
2.43.0


From 728a5327d905ca01a6922ca3280268f5d083954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:18 +0000
Subject: [PATCH 51/67] fix: array identifiers out of the int range

---
 source/int.c      |  4 ++--
 source/relation.c | 25 +++++++++++++++++++++----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/source/int.c b/source/int.c
index 6689697..a3a856b 100644
--- a/source/int.c
+++ b/source/int.c
@@ -1588,10 +1588,10 @@ int osl_int_divisible(const int precision, const osl_int_t val1,
                       const osl_int_t val2) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      return ((val1.sp % val2.sp) == 0);
+      return ((val2.sp == -1) || ((val1.sp % val2.sp) == 0));
 
     case OSL_PRECISION_DP:
-      return ((val1.dp % val2.dp) == 0);
+      return ((val2.dp == -1) || ((val1.dp % val2.dp) == 0));
 
 #ifdef OSL_GMP_IS_HERE
     case OSL_PRECISION_MP:
diff --git a/source/relation.c b/source/relation.c
index 14e8200..b99e896 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -59,6 +59,7 @@
  ******************************************************************************/
 
 #include <ctype.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -2674,6 +2675,7 @@ int osl_relation_get_array_id(const osl_relation_t* relation) {
   int nb_array_id;
   int row_id = 0;
   int precision;
+  osl_int_t min, quotient;
 
   if (relation == NULL)
     return OSL_UNDEFINED;
@@ -2725,13 +2727,28 @@ int osl_relation_get_array_id(const osl_relation_t* relation) {
       OSL_warning("rational array identifier");
       return OSL_UNDEFINED;
     }
-    array_id = -osl_int_get_si(precision,
-                               relation->m[row_id][relation->nb_columns - 1]);
-    array_id /= osl_int_get_si(precision, relation->m[row_id][1]);
-    if (array_id <= 0) {
+    if (osl_int_zero(precision,
+                     relation->m[row_id][relation->nb_columns - 1]) ||
+        (osl_int_pos(precision, relation->m[row_id][1]) ==
+         osl_int_pos(precision,
+                     relation->m[row_id][relation->nb_columns - 1]))) {
       OSL_warning("negative or 0 identifier in access function");
       return OSL_UNDEFINED;
     }
+    osl_int_init_set_si(precision, &min, -INT_MAX);
+    osl_int_init(precision, &quotient);
+    osl_int_div_exact(precision, &quotient,
+                      relation->m[row_id][relation->nb_columns - 1],
+                      relation->m[row_id][1]);
+    array_id = OSL_UNDEFINED;
+    if (osl_int_ge(precision, quotient, min))
+      array_id = -osl_int_get_si(precision, quotient);
+    osl_int_clear(precision, &quotient);
+    osl_int_clear(precision, &min);
+    if (array_id == OSL_UNDEFINED) {
+      OSL_warning("too large identifier in access function");
+      return OSL_UNDEFINED;
+    }
 
     // Unions of accesses are allowed, but they should refer at the same array.
     if (first) {
-- 
2.43.0


From b7be8b8a78d80b6992e5bfa4165c193e1bd89054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 52/67] fix: read rows and lists of names of any length

---
 include/osl/util.h |  1 +
 source/relation.c  | 14 +++++++++-----
 source/strings.c   |  8 +++++---
 source/util.c      | 47 ++++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 62 insertions(+), 8 deletions(-)

diff --git a/include/osl/util.h b/include/osl/util.h
index 1668635..2284b8b 100644
--- a/include/osl/util.h
+++ b/include/osl/util.h
@@ -71,6 +71,7 @@ extern "C" {
  *                            Utility functions                               *
  ******************************************************************************/
 char* osl_util_skip_blank_and_comments(FILE*, char*);
+char* osl_util_read_data_line(FILE*);
 void osl_util_sskip_blank_and_comments(char**);
 int osl_util_read_int(FILE*, char**);
 char* osl_util_read_string(FILE*, char**);
diff --git a/source/relation.c b/source/relation.c
index b99e896..7937a8b 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1383,7 +1383,7 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
   int read_attributes = 1;
   int first = 1;
   int type;
-  char *c, s[OSL_MAX_STRING], str[OSL_MAX_STRING], *tmp;
+  char *c, s[OSL_MAX_STRING], str[OSL_MAX_STRING], *tmp, *line;
   osl_relation_p relation, relation_union = NULL, previous = NULL;
 
   type = osl_relation_read_type(foo, NULL);
@@ -1429,21 +1429,25 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
 
     // Read the matrix of constraints.
     for (i = 0; i < relation->nb_rows; i++) {
-      c = osl_util_skip_blank_and_comments(foo, s);
-      if (c == NULL)
+      line = osl_util_read_data_line(foo);
+      if (line == NULL)
         OSL_error("not enough rows");
+      c = line;
 
       for (j = 0; j < relation->nb_columns; j++) {
-        if (c == NULL || *c == '#' || *c == '\n')
+        if (*c == '#' || *c == '\n')
           OSL_error("not enough columns");
-        if (sscanf(c, "%s%n", str, &n) != 1)
+        if (sscanf(c, "%2047s%n", str, &n) != 1)
           OSL_error("not enough columns");
+        if (strlen(str) == OSL_MAX_STRING - 1)
+          OSL_error("number too long");
 
         // TODO: remove this tmp (sread updates the pointer).
         tmp = str;
         osl_int_sread(&tmp, precision, &relation->m[i][j]);
         c += n;
       }
+      free(line);
     }
 
     // Build the linked list of union parts.
diff --git a/source/strings.c b/source/strings.c
index 7193f1f..e5be197 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -248,13 +248,15 @@ osl_strings_t* osl_strings_sread(char** const input) {
  * \return The strings structure that has been read.
  */
 osl_strings_t* osl_strings_read(FILE* const file) {
-  char buffer[OSL_MAX_STRING], *start;
+  char *line, *start;
   osl_strings_p strings;
 
-  start = osl_util_skip_blank_and_comments(file, buffer);
-  if (start == NULL)
+  line = osl_util_read_data_line(file);
+  if (line == NULL)
     return NULL;
+  start = line;
   strings = osl_strings_sread(&start);
+  free(line);
 
   return strings;
 }
diff --git a/source/util.c b/source/util.c
index 77e4180..1bd7bb3 100644
--- a/source/util.c
+++ b/source/util.c
@@ -108,6 +108,53 @@ char* osl_util_skip_blank_and_comments(FILE* file, char* str) {
   return start;
 }
 
+/**
+ * osl_util_read_data_line function:
+ * this function reads the open file 'file' line by line, skipping blank and
+ * comment lines, up to the first line where there is some useful information.
+ * It returns a copy of that line, whatever its length, starting from the
+ * first useful character (the user has to free it).
+ * \param[in] file The (opened) file to read.
+ * \return The first line with useful information, NULL at the end of file.
+ */
+char* osl_util_read_data_line(FILE* file) {
+  char buffer[OSL_MAX_STRING], *start, *line;
+  size_t size = OSL_MAX_STRING, length, n;
+
+  OSL_malloc(line, char*, size * sizeof(char));
+
+  do {
+    length = 0;
+    do {
+      start = fgets(buffer, OSL_MAX_STRING, file);
+      if (ferror(file))
+        OSL_error("read error");
+      if (start == NULL)
+        break;
+      n = strlen(buffer);
+      if (length + n >= size) {
+        size = 2 * (length + n + 1);
+        OSL_realloc(line, char*, size * sizeof(char));
+      }
+      memcpy(line + length, buffer, n);
+      length += n;
+    } while ((n == OSL_MAX_STRING - 1) && (buffer[n - 1] != '\n'));
+
+    if ((start == NULL) && (length == 0)) {
+      free(line);
+      return NULL;
+    }
+
+    line[length] = '\0';
+    start = line;
+    while (isspace(*start) && (*start != '\n'))
+      start++;
+  } while (*start == '#' || *start == '\n');
+
+  memmove(line, start, strlen(start) + 1);
+  return line;
+}
+
 /**
  * osl_util_sskip_blank_and_comments "string skip" function:
  * this function updates the str pointer, which initialy points to a string,
-- 
2.43.0


From bac805812a9a5a3cc11c304fdb3e6855e2bed6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 53/67] fix: print a scatnames extension without content

---
 source/extensions/scatnames.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/extensions/scatnames.c b/source/extensions/scatnames.c
index 68ad02e..304dc2c 100644
--- a/source/extensions/scatnames.c
+++ b/source/extensions/scatnames.c
@@ -132,6 +132,14 @@ void osl_scatnames_dump(FILE* const file,
  * \return A string containing the OpenScop dump of the scatnames structure.
  */
 char* osl_scatnames_sprint(const osl_scatnames_t* const scatnames) {
+  char* string = NULL;
+
+  // No scattering names (e.g., read from an empty content): nothing to print.
+  if (scatnames == NULL) {
+    OSL_strdup(string, "");
+    return string;
+  }
+
   return osl_strings_sprint(scatnames->names);
 }
 
-- 
2.43.0


From b98ce109f529ccef8131c6ab9eb1a55f148fec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 54/67] fix: an empty tag name is not read from uninitialised
 memory

---
 source/util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/util.c b/source/util.c
index 1bd7bb3..fd2d044 100644
--- a/source/util.c
+++ b/source/util.c
@@ -346,6 +346,7 @@ char* osl_util_read_tag(FILE* file, char** str) {
 
   // Read the tag.
   OSL_malloc(res, char*, (OSL_MAX_STRING + 1) * sizeof(char));
+  res[0] = '\0';
   res[OSL_MAX_STRING] = '\0';
 
   while (**str && **str != '>') {
-- 
2.43.0


From e2b7681f955309dbef94eb38731e0b7dbb5144e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 55/67] fix: reading an integer from a string advances past all
 of it

---
 source/int.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/int.c b/source/int.c
index a3a856b..ed6a835 100644
--- a/source/int.c
+++ b/source/int.c
@@ -672,20 +672,20 @@ void osl_int_sprint_txt(char* const string, const int precision,
  */
 int osl_int_sscanf(const char* const string, const int precision,
                    osl_int_t* const i) {
-  int nb_read = 0;
+  int nb_read = 0, nb_chars = 0;
 
   switch (precision) {
     case OSL_PRECISION_SP:
-      nb_read = sscanf(string, OSL_FMT_TXT_SP, &(i->sp));
+      nb_read = sscanf(string, OSL_FMT_TXT_SP "%n", &(i->sp), &nb_chars);
       break;
 
     case OSL_PRECISION_DP:
-      nb_read = sscanf(string, OSL_FMT_TXT_DP, &(i->dp));
+      nb_read = sscanf(string, OSL_FMT_TXT_DP "%n", &(i->dp), &nb_chars);
       break;
 
 #ifdef OSL_GMP_IS_HERE
     case OSL_PRECISION_MP: {
-      nb_read = gmp_sscanf(string, "%lZd", i->mp);
+      nb_read = gmp_sscanf(string, "%Zd%n", i->mp, &nb_chars);
       break;
     }
 #endif
@@ -694,11 +694,11 @@ int osl_int_sscanf(const char* const string, const int precision,
       OSL_error("unknown precision");
   }
 
-  if (nb_read == 0) {
+  if (nb_read != 1) {
     OSL_error("failed to read an integer");
   }
 
-  return nb_read;
+  return nb_chars;
 }
 
 /**
-- 
2.43.0


From 9286a1e78a4c772e99a3177d4804668da6535b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 56/67] fix: zero has one digit in base 10 at every precision

---
 source/int.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/int.c b/source/int.c
index ed6a835..f8917bb 100644
--- a/source/int.c
+++ b/source/int.c
@@ -1291,7 +1291,7 @@ size_t lllog10(long long int x) {
     ++n;
   }
 
-  return n;
+  return ((n == 0) ? 1 : n);
 }
 
 /**
-- 
2.43.0


From 3283a79943b71968792e60226fdeef47b1a4e607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 57/67] fix: modulo and gcd of the smallest integer and -1

---
 source/int.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/int.c b/source/int.c
index f8917bb..6595a3e 100644
--- a/source/int.c
+++ b/source/int.c
@@ -1097,13 +1097,15 @@ void osl_int_mod(const int precision, osl_int_t* const mod, const osl_int_t a,
                  const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      mod->sp = a.sp % b.sp;
+      // LONG_MIN % -1 is not computable by a machine division.
+      mod->sp = (b.sp == -1) ? 0 : a.sp % b.sp;
       if (mod->sp < 0)
         mod->sp += labs(b.sp);
       return;
 
     case OSL_PRECISION_DP:
-      mod->dp = a.dp % b.dp;
+      // LLONG_MIN % -1 is not computable by a machine division.
+      mod->dp = (b.dp == -1) ? 0 : a.dp % b.dp;
       if (mod->dp < 0)
         mod->dp += llabs(b.dp);
       return;
@@ -1121,7 +1123,7 @@ void osl_int_mod(const int precision, osl_int_t* const mod, const osl_int_t a,
 
 // gcd (greatest common divisor) for long long int
 long long int llgcd(const long long int a, const long long int b) {
-  return (b ? llgcd(b, a % b) : a);
+  return (b ? llgcd(b, (b == -1) ? 0 : a % b) : a);
 }
 
 /**
-- 
2.43.0


From 198c3c4d7da76d28fcc4e132c4ab52df04dd2990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:33 +0000
Subject: [PATCH 58/67] fix: integer overflows are detected also in optimised
 builds

---
 source/int.c | 132 +++++++++++++++++++++++++++------------------------
 1 file changed, 71 insertions(+), 61 deletions(-)

diff --git a/source/int.c b/source/int.c
index 6595a3e..2695a0f 100644
--- a/source/int.c
+++ b/source/int.c
@@ -716,6 +716,33 @@ void osl_int_sread(char** string, const int precision, osl_int_t* const i) {
  *                            Arithmetic Operations                           *
  ******************************************************************************/
 
+#ifndef NDEBUG
+// The overflow checks look at the operands before computing: overflowing first
+// and looking at the result is undefined (compilers remove such checks).
+
+// does a + b leave [min, max]?
+static int lladd_overflow(const long long int a, const long long int b,
+                          const long long int min, const long long int max) {
+  return (b > 0) ? (a > max - b) : (a < min - b);
+}
+
+// does a - b leave [min, max]?
+static int llsub_overflow(const long long int a, const long long int b,
+                          const long long int min, const long long int max) {
+  return (b > 0) ? (a < min + b) : (a > max + b);
+}
+
+// does a * b leave [min, max]?
+static int llmul_overflow(const long long int a, const long long int b,
+                          const long long int min, const long long int max) {
+  if (a > 0)
+    return (b > 0) ? (a > max / b) : (b < min / a);
+  if (a < 0)
+    return (b > 0) ? (a < min / b) : (b != 0 && b < max / a);
+  return 0;
+}
+#endif
+
 /**
  * \brief variable = value + 1
  * \param[in] precision Precision of the osl int
@@ -750,26 +777,16 @@ void osl_int_add(const int precision, osl_int_t* const variable,
   switch (precision) {
     case OSL_PRECISION_SP:
 #ifndef NDEBUG
-      if (osl_int_pos(precision, val1) && osl_int_pos(precision, val2)) {
-        if (LONG_MAX - val1.sp < val2.sp)
-          OSL_overflow("osl_int_add overflow");
-      } else if (osl_int_neg(precision, val1) && osl_int_neg(precision, val2)) {
-        if (val1.sp - LONG_MIN < -val2.sp)
-          OSL_overflow("osl_int_add overflow");
-      }
+      if (lladd_overflow(val1.sp, val2.sp, LONG_MIN, LONG_MAX))
+        OSL_overflow("osl_int_add overflow");
 #endif
       variable->sp = val1.sp + val2.sp;
       break;
 
     case OSL_PRECISION_DP:
 #ifndef NDEBUG
-      if (osl_int_pos(precision, val1) && osl_int_pos(precision, val2)) {
-        if (LLONG_MAX - val1.dp < val2.dp)
-          OSL_overflow("osl_int_add overflow");
-      } else if (osl_int_neg(precision, val1) && osl_int_neg(precision, val2)) {
-        if (val1.dp - LLONG_MIN < -val2.dp)
-          OSL_overflow("osl_int_add overflow");
-      }
+      if (lladd_overflow(val1.dp, val2.dp, LLONG_MIN, LLONG_MAX))
+        OSL_overflow("osl_int_add overflow");
 #endif
       variable->dp = val1.dp + val2.dp;
       break;
@@ -797,26 +814,16 @@ void osl_int_add_si(const int precision, osl_int_t* const variable,
   switch (precision) {
     case OSL_PRECISION_SP:
 #ifndef NDEBUG
-      if (osl_int_pos(precision, value) && i > 0) {
-        if (LONG_MAX - value.sp < i)
-          OSL_overflow("osl_int_add_si overflow");
-      } else if (osl_int_neg(precision, value) && i < 0) {
-        if (value.sp - LONG_MIN < -i)
-          OSL_overflow("osl_int_add_si overflow");
-      }
+      if (lladd_overflow(value.sp, i, LONG_MIN, LONG_MAX))
+        OSL_overflow("osl_int_add_si overflow");
 #endif
       variable->sp = value.sp + (long int)i;
       break;
 
     case OSL_PRECISION_DP:
 #ifndef NDEBUG
-      if (osl_int_pos(precision, value) && i > 0) {
-        if (LLONG_MAX - value.dp < i)
-          OSL_overflow("osl_int_add_si overflow");
-      } else if (osl_int_neg(precision, value) && i < 0) {
-        if (value.dp - LLONG_MIN < -i)
-          OSL_overflow("osl_int_add_si overflow");
-      }
+      if (lladd_overflow(value.dp, i, LLONG_MIN, LLONG_MAX))
+        OSL_overflow("osl_int_add_si overflow");
 #endif
       variable->dp = value.dp + (long long int)i;
       break;
@@ -845,16 +852,31 @@ void osl_int_add_si(const int precision, osl_int_t* const variable,
  */
 void osl_int_sub(const int precision, osl_int_t* const variable,
                  const osl_int_t val1, const osl_int_t val2) {
+  switch (precision) {
+    case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (llsub_overflow(val1.sp, val2.sp, LONG_MIN, LONG_MAX))
+        OSL_overflow("osl_int_sub overflow");
+#endif
+      variable->sp = val1.sp - val2.sp;
+      break;
+
+    case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (llsub_overflow(val1.dp, val2.dp, LLONG_MIN, LLONG_MAX))
+        OSL_overflow("osl_int_sub overflow");
+#endif
+      variable->dp = val1.dp - val2.dp;
+      break;
+
 #ifdef OSL_GMP_IS_HERE
-  if (precision == OSL_PRECISION_MP) {
-    mpz_sub(*variable->mp, *val1.mp, *val2.mp);
-  } else
-#endif
-  {
-    osl_int_t mval2;
-    osl_int_init(precision, &mval2);
-    osl_int_oppose(precision, &mval2, val2);
-    osl_int_add(precision, variable, val1, mval2);
+    case OSL_PRECISION_MP:
+      mpz_sub(*variable->mp, *val1.mp, *val2.mp);
+      break;
+#endif
+
+    default:
+      OSL_error("unknown precision");
   }
 }
 
@@ -869,25 +891,19 @@ void osl_int_mul(const int precision, osl_int_t* const variable,
                  const osl_int_t val1, const osl_int_t val2) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      variable->sp = val1.sp * val2.sp;
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, val1) && !osl_int_zero(precision, val2)) {
-        if (variable->sp / val2.sp != val1.sp) {
-          OSL_overflow("osl_int_mul overflow");
-        }
-      }
+      if (llmul_overflow(val1.sp, val2.sp, LONG_MIN, LONG_MAX))
+        OSL_overflow("osl_int_mul overflow");
 #endif
+      variable->sp = val1.sp * val2.sp;
       break;
 
     case OSL_PRECISION_DP:
-      variable->dp = val1.dp * val2.dp;
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, val1) && !osl_int_zero(precision, val2)) {
-        if (variable->dp / val2.dp != val1.dp) {
-          OSL_overflow("osl_int_mul overflow");
-        }
-      }
+      if (llmul_overflow(val1.dp, val2.dp, LLONG_MIN, LLONG_MAX))
+        OSL_overflow("osl_int_mul overflow");
 #endif
+      variable->dp = val1.dp * val2.dp;
       break;
 
 #ifdef OSL_GMP_IS_HERE
@@ -912,25 +928,19 @@ void osl_int_mul_si(const int precision, osl_int_t* const variable,
                     const osl_int_t value, const int i) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      variable->sp = value.sp * (long int)i;
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, value) && i != 0) {
-        if (variable->sp / (long int)i != value.sp) {
-          OSL_overflow("osl_int_mul_si overflow");
-        }
-      }
+      if (llmul_overflow(value.sp, i, LONG_MIN, LONG_MAX))
+        OSL_overflow("osl_int_mul_si overflow");
 #endif
+      variable->sp = value.sp * (long int)i;
       break;
 
     case OSL_PRECISION_DP:
-      variable->dp = value.dp * (long long int)i;
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, value) && i != 0) {
-        if (variable->dp / (long long int)i != value.dp) {
-          OSL_overflow("osl_int_mul_si overflow");
-        }
-      }
+      if (llmul_overflow(value.dp, i, LLONG_MIN, LLONG_MAX))
+        OSL_overflow("osl_int_mul_si overflow");
 #endif
+      variable->dp = value.dp * (long long int)i;
       break;
 
 #ifdef OSL_GMP_IS_HERE
-- 
2.43.0


From 78e4de3075d4b732923b0242c5ec87e1f7905c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:19 +0000
Subject: [PATCH 59/67] fix: SCoPLib export of a statement without accesses has
 empty access matrices

---
 source/relation_list.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/relation_list.c b/source/relation_list.c
index 798ebda..af8ee27 100644
--- a/source/relation_list.c
+++ b/source/relation_list.c
@@ -271,7 +271,8 @@ void osl_relation_list_pprint_access_array_scoplib(
       }
     }
   } else {
-    fprintf(file, "# NULL relation list\n");
+    fprintf(file, "# Read access informations\n0 0\n");
+    fprintf(file, "# Write access informations\n0 0\n");
   }
 }
 
-- 
2.43.0


From 0434a65ee9f42f33e78e906b87acac6c299462ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:19 +0000
Subject: [PATCH 60/67] fix: SCoPs without domain or scattering are refused by
 the SCoPLib export

---
 source/scop.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index 12e7a66..00fd93e 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -802,21 +802,27 @@ int osl_scop_integrity_check(const osl_scop_t* scop) {
 int osl_scop_check_compatible_scoplib(const osl_scop_t* scop) {
   if (!osl_scop_integrity_check(scop))
     return 0;
-  if (scop->next != NULL)
-    return 0;
   if (scop == NULL || scop->statement == NULL)
     return 1;
+  if (scop->next != NULL)
+    return 0;
 
   osl_relation_p domain;
   osl_statement_p statement;
   osl_relation_p scattering;
-  int precision = scop->statement->scattering->precision;
+  int precision;
   int i, j;
 
   statement = scop->statement;
   while (statement != NULL) {
     scattering = statement->scattering;
 
+    if (statement->domain == NULL || scattering == NULL) {
+      OSL_error("No domain or no scattering matrix");
+      return 0;
+    }
+    precision = scattering->precision;
+
     if (scattering->nb_local_dims != 0) {
       OSL_error("Local dims in scattering matrix");
       return 0;
-- 
2.43.0


From 2aba63091e953fc7cfe75a62a6297230ad247041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:19 +0000
Subject: [PATCH 61/67] fix: SCoPLib export of every statement without
 iterators has a fake iterator

---
 source/relation.c  | 43 +++++++++++++++++++++++++++----------------
 source/statement.c |  4 ++--
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 7937a8b..7d3004b 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -939,7 +939,8 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
   int generated_names = 0;
   int is_access_array;
   size_t high_water_mark = OSL_MAX_STRING;
-  int start_row;  // for removing the first line in the access matrix
+  int nb_fake_rows;  // for the scattering of a statement without iterators
+  int start_row;     // for removing the first line in the access matrix
   int index_output_dims;
   int index_input_dims;
   int index_params;
@@ -981,6 +982,12 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
     index_input_dims = index_output_dims + relation->nb_output_dims;
     index_params = index_input_dims + relation->nb_input_dims;
 
+    // A 2d+1 scattering of 0 iterators becomes a 2d+1 scattering of 1 iterator.
+    nb_fake_rows = 0;
+    if (add_fakeiter && relation->type == OSL_TYPE_SCATTERING &&
+        relation->nb_rows == 1)
+      nb_fake_rows = 2;
+
     // Prepare the array of strings for comments.
     name_array = osl_relation_strings(relation, names);
 
@@ -1028,7 +1035,8 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
       } else {  // SCATTERING
 
         if (add_fakeiter) {
-          snprintf(buffer, OSL_MAX_STRING, "%d %d\n", relation->nb_rows + 2,
+          snprintf(buffer, OSL_MAX_STRING, "%d %d\n",
+                   relation->nb_rows + nb_fake_rows,
                    relation->nb_columns - relation->nb_output_dims + 1);
           osl_util_safe_strcat(&string, buffer, &high_water_mark);
         } else {
@@ -1079,6 +1087,11 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
 
       // Rest of the array
       if (relation->type == OSL_TYPE_DOMAIN) {
+        if (add_fakeiter) {
+          snprintf(buffer, OSL_MAX_STRING, "   0 ");
+          osl_util_safe_strcat(&string, buffer, &high_water_mark);
+        }
+
         for (j = 1; j < index_input_dims; j++) {
           osl_int_sprint(buffer, relation->precision, relation->m[i][j]);
           osl_util_safe_strcat(&string, buffer, &high_water_mark);
@@ -1137,22 +1150,20 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
         snprintf(buffer, OSL_MAX_STRING, "\n");
         osl_util_safe_strcat(&string, buffer, &high_water_mark);
       }
+    }
 
-      // add the lines in the scattering if we need the fakeiter
-      if (relation->nb_rows > 0 && add_fakeiter &&
-          relation->type == OSL_TYPE_SCATTERING) {
-        for (i = 0; i < 2; i++) {
-          for (j = 0; j < relation->nb_columns; j++) {
-            if (j == index_output_dims && i == 0)
-              snprintf(buffer, OSL_MAX_STRING, "   1 ");  // fakeiter
-            else
-              snprintf(buffer, OSL_MAX_STRING, "   0 ");
-            osl_util_safe_strcat(&string, buffer, &high_water_mark);
-          }
-          snprintf(buffer, OSL_MAX_STRING, "\n");
-          osl_util_safe_strcat(&string, buffer, &high_water_mark);
-        }
+    // add the lines in the scattering if we need the fakeiter
+    for (i = 0; i < nb_fake_rows; i++) {
+      for (j = 0; j < relation->nb_columns - relation->nb_output_dims + 1;
+           j++) {
+        if (j == index_output_dims && i == 0)
+          snprintf(buffer, OSL_MAX_STRING, "   1 ");  // fakeiter
+        else
+          snprintf(buffer, OSL_MAX_STRING, "   0 ");
+        osl_util_safe_strcat(&string, buffer, &high_water_mark);
       }
+      snprintf(buffer, OSL_MAX_STRING, "\n");
+      osl_util_safe_strcat(&string, buffer, &high_water_mark);
     }
 
     // Free the array of strings.
diff --git a/source/statement.c b/source/statement.c
index faf33ae..d0a48eb 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -303,8 +303,8 @@ void osl_statement_pprint_scoplib(FILE* const file,
       names->iterators = body->iterators;
     }
 
-    add_fakeiter =
-        statement->domain->nb_rows == 0 && statement->scattering->nb_rows == 1;
+    // SCoPLib statements have at least one iterator.
+    add_fakeiter = (statement->domain->nb_output_dims == 0);
 
     fprintf(file, "# =============================================== ");
     fprintf(file, "Statement %d\n", number);
-- 
2.43.0


From dff3656ed493ff408fbe813b802120216e51bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 62/67] fix: the content of a tag that does not start with a
 newline keeps its first character

---
 source/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/util.c b/source/util.c
index fd2d044..f077a69 100644
--- a/source/util.c
+++ b/source/util.c
@@ -512,7 +512,7 @@ char* osl_util_tag_content(const char* str, const char* name) {
     OSL_malloc(res, char*, (size + 1) * sizeof(char));
 
     // Copy the chain between the two tags (without the first newline).
-    if (start != stop)
+    if (start != stop && *start == '\n')
       ++start;
     for (i = 0; start != stop; ++start, ++i)
       res[i] = *start;
-- 
2.43.0


From 2633c7dccca33509dd5020da52fae84922de5a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:20 +0000
Subject: [PATCH 63/67] fix: do not compute the opposite of coefficients just
 to print it

The comment of a row with the smallest integer of the precision showed a
wrong expression, as its opposite does not fit.
---
 source/relation.c | 87 +++++++++++++++++------------------------------
 1 file changed, 31 insertions(+), 56 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 7d3004b..fbf3ed9 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -74,8 +74,8 @@
 
 static char* osl_relation_sprint_type(const osl_relation_t*);
 static void osl_relation_print_type(FILE*, const osl_relation_t*);
-static char* osl_relation_expression_element(const osl_int_t, int, int*, int,
-                                             const char*);
+static char* osl_relation_expression_element(const osl_int_t, int, int, int*,
+                                             int, const char*);
 
 static char** osl_relation_strings(const osl_relation_t*, const osl_names_t*);
 static char* osl_relation_subexpression(const osl_relation_t*, int, int, int,
@@ -259,9 +259,12 @@ void osl_relation_dump(FILE* const file, const osl_relation_t* const relation) {
 /**
  * osl_relation_expression_element function:
  * this function returns a string containing the printing of a value (e.g.,
- * an iterator with its coefficient or a constant).
+ * an iterator with its coefficient or a constant) or of its opposite. The
+ * opposite is only printed, not computed: it may not fit the precision.
  * \param[in]     val       Coefficient or constant value.
  * \param[in]     precision The precision of the value.
+ * \param[in]     oppose    Boolean set to 1 to print the opposite of the
+ *                          value, 0 otherwise.
  * \param[in,out] first     Pointer to a boolean set to 1 if the current value
  *                          is the first of an expresion, 0 otherwise (maybe
  *                          updated).
@@ -271,62 +274,40 @@ void osl_relation_dump(FILE* const file, const osl_relation_t* const relation) {
  * \return A string that contains the printing of a value.
  */
 char* osl_relation_expression_element(const osl_int_t val, int precision,
-                                      int* const first, int cst,
+                                      int oppose, int* const first, int cst,
                                       const char* const name) {
-  char *temp, *body, *sval;
+  char *temp, *sval, *number;
+  const char* sign;
   size_t size = OSL_MAX_STRING + (name != NULL ? strlen(name) : 0);
 
-  OSL_malloc(temp, char*, size * sizeof(char));
-  OSL_malloc(body, char*, OSL_MAX_STRING * sizeof(char));
+  OSL_malloc(temp, char*, OSL_MAX_STRING * sizeof(char));
   OSL_malloc(sval, char*, size * sizeof(char));
 
-  body[0] = '\0';
   sval[0] = '\0';
 
-  // statements for the 'normal' processing.
-  if (!osl_int_zero(precision, val) && (!cst)) {
-    if ((*first) || osl_int_neg(precision, val)) {
-      if (osl_int_one(precision, val)) {  // case 1
-        sprintf(sval, "%s", name);
-      } else {
-        if (osl_int_mone(precision, val)) {  // case -1
-          sprintf(sval, "-%s", name);
-        } else {  // default case
-          osl_int_sprint_txt(sval, precision, val);
-          sprintf(temp, "*%s", name);
-          strcat(sval, temp);
-        }
-      }
-      *first = 0;
-    } else {
-      if (osl_int_one(precision, val)) {
-        sprintf(sval, "+%s", name);
-      } else {
-        sprintf(sval, "+");
-        osl_int_sprint_txt(temp, precision, val);
-        strcat(sval, temp);
-        sprintf(temp, "*%s", name);
-        strcat(sval, temp);
-      }
-    }
+  if (osl_int_zero(precision, val)) {
+    if (cst && (*first))
+      osl_int_sprint_txt(sval, precision, val);
   } else {
+    // The sign and the magnitude of the value to print.
+    osl_int_sprint_txt(temp, precision, val);
+    number = (temp[0] == '-') ? temp + 1 : temp;
+    if (osl_int_neg(precision, val) != (oppose != 0))
+      sign = "-";
+    else
+      sign = (*first) ? "" : "+";
+
     if (cst) {
-      if ((osl_int_zero(precision, val) && (*first)) ||
-          (osl_int_neg(precision, val)))
-        osl_int_sprint_txt(sval, precision, val);
-      if (osl_int_pos(precision, val)) {
-        if (!(*first)) {
-          sprintf(sval, "+");
-          osl_int_sprint_txt(temp, precision, val);
-          strcat(sval, temp);
-        } else {
-          osl_int_sprint_txt(sval, precision, val);
-        }
-      }
+      sprintf(sval, "%s%s", sign, number);
+    } else {
+      if (!strcmp(number, "1"))  // case 1 or -1
+        sprintf(sval, "%s%s", sign, name);
+      else  // default case
+        sprintf(sval, "%s%s*%s", sign, number, name);
+      *first = 0;
     }
   }
   free(temp);
-  free(body);
 
   return (sval);
 }
@@ -452,29 +433,23 @@ char* osl_relation_subexpression(const osl_relation_t* relation, int row,
   size_t high_water_mark = OSL_MAX_STRING;
   char* sval;
   char* sline;
-  osl_int_t opposite;
 
   OSL_malloc(sline, char*, high_water_mark * sizeof(char));
   sline[0] = '\0';
-  osl_int_init(relation->precision, &opposite);
 
   // Create the expression. The constant is a special case.
   for (i = start; i <= stop; i++) {
-    if (oppose)
-      osl_int_oppose(relation->precision, &opposite, relation->m[row][i]);
-
     if (i == relation->nb_columns - 1)
       constant = 1;
     else
       constant = 0;
 
-    sval = osl_relation_expression_element(
-        oppose ? opposite : relation->m[row][i], relation->precision, &first,
-        constant, strings[i]);
+    sval = osl_relation_expression_element(relation->m[row][i],
+                                           relation->precision, oppose, &first,
+                                           constant, strings[i]);
     osl_util_safe_strcat(&sline, sval, &high_water_mark);
     free(sval);
   }
-  osl_int_clear(relation->precision, &opposite);
 
   return sline;
 }
-- 
2.43.0


From d65f5c97933ffc5cbf409a1495b42e06abbbcc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:20 +0000
Subject: [PATCH 64/67] fix: accept names without array names when printing
 relations

---
 source/relation.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index fbf3ed9..b2d0433 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -869,8 +869,9 @@ char* osl_relation_spprint_polylib(const osl_relation_t* relation,
       }
 
       if (name_array != NULL) {
-        comment = osl_relation_sprint_comment(relation, i, name_array,
-                                              names->arrays->string);
+        comment = osl_relation_sprint_comment(
+            relation, i, name_array,
+            (names->arrays != NULL) ? names->arrays->string : NULL);
         osl_util_safe_strcat(&string, comment, &high_water_mark);
         free(comment);
       }
@@ -1118,8 +1119,9 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
 
       // equation in comment
       if (name_array != NULL) {
-        comment = osl_relation_sprint_comment(relation, i, name_array,
-                                              names->arrays->string);
+        comment = osl_relation_sprint_comment(
+            relation, i, name_array,
+            (names->arrays != NULL) ? names->arrays->string : NULL);
         osl_util_safe_strcat(&string, comment, &high_water_mark);
         free(comment);
         snprintf(buffer, OSL_MAX_STRING, "\n");
-- 
2.43.0


From b1869f4ccc9967f6ee9159ed94b07b3a75ade1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:20 +0000
Subject: [PATCH 65/67] fix: name all iterators in the header of a SCoPLib
 domain

---
 source/relation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/relation.c b/source/relation.c
index b2d0433..a175dc3 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -714,7 +714,7 @@ char* osl_relation_column_string_scoplib(const osl_relation_t* relation,
   while (strings[i] != NULL) {
     if (i == 0 ||
         (relation->type != OSL_TYPE_DOMAIN && i >= index_input_dims) ||
-        (relation->type == OSL_TYPE_DOMAIN && i <= index_output_dims) ||
+        (relation->type == OSL_TYPE_DOMAIN && i < index_input_dims) ||
         i >= index_parameters) {
       space = OSL_FMT_LENGTH;
       length =
-- 
2.43.0


From 51ee6dceb25bce7b469b6b8c30baee7062c2f0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:20 +0000
Subject: [PATCH 66/67] fix: report overflow of the smallest integer in
 quotient, gcd, opposite and abs

---
 source/int.c | 54 +++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/source/int.c b/source/int.c
index 2695a0f..1ba8fc5 100644
--- a/source/int.c
+++ b/source/int.c
@@ -966,10 +966,18 @@ void osl_int_div_exact(const int precision, osl_int_t* const q,
                        const osl_int_t a, const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (a.sp == LONG_MIN && b.sp == -1)
+        OSL_overflow("osl_int_div_exact overflow");
+#endif
       q->sp = a.sp / b.sp;
       return;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (a.dp == LLONG_MIN && b.dp == -1)
+        OSL_overflow("osl_int_div_exact overflow");
+#endif
       q->dp = a.dp / b.dp;
       return;
 
@@ -995,6 +1003,10 @@ void osl_int_floor_div_q(const int precision, osl_int_t* const q,
                          const osl_int_t a, const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (a.sp == LONG_MIN && b.sp == -1)
+        OSL_overflow("osl_int_floor_div_q overflow");
+#endif
       q->sp = a.sp / b.sp;
       if (q->sp < 0) {
         if (a.sp % b.sp != 0)
@@ -1008,6 +1020,10 @@ void osl_int_floor_div_q(const int precision, osl_int_t* const q,
       return;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (a.dp == LLONG_MIN && b.dp == -1)
+        OSL_overflow("osl_int_floor_div_q overflow");
+#endif
       q->dp = a.dp / b.dp;
       if (q->dp < 0) {
         if (a.dp % b.dp != 0)
@@ -1147,11 +1163,21 @@ void osl_int_gcd(const int precision, osl_int_t* gcd, const osl_int_t a,
                  const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      gcd->sp = labs(llgcd(a.sp, b.sp));
+      gcd->sp = llgcd(a.sp, b.sp);
+#ifndef NDEBUG
+      if (gcd->sp == LONG_MIN)
+        OSL_overflow("osl_int_gcd overflow");
+#endif
+      gcd->sp = labs(gcd->sp);
       return;
 
     case OSL_PRECISION_DP:
-      gcd->dp = llabs(llgcd(a.dp, b.dp));
+      gcd->dp = llgcd(a.dp, b.dp);
+#ifndef NDEBUG
+      if (gcd->dp == LLONG_MIN)
+        OSL_overflow("osl_int_gcd overflow");
+#endif
+      gcd->dp = llabs(gcd->dp);
       return;
 
 #ifdef OSL_GMP_IS_HERE
@@ -1208,10 +1234,18 @@ void osl_int_oppose(const int precision, osl_int_t* const variable,
                     const osl_int_t value) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (value.sp == LONG_MIN)
+        OSL_overflow("osl_int_oppose overflow");
+#endif
       variable->sp = -value.sp;
       break;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (value.dp == LLONG_MIN)
+        OSL_overflow("osl_int_oppose overflow");
+#endif
       variable->dp = -value.dp;
       break;
 
@@ -1236,10 +1270,18 @@ void osl_int_abs(const int precision, osl_int_t* const variable,
                  const osl_int_t value) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (value.sp == LONG_MIN)
+        OSL_overflow("osl_int_abs overflow");
+#endif
       variable->sp = (value.sp > 0) ? value.sp : -value.sp;
       break;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (value.dp == LLONG_MIN)
+        OSL_overflow("osl_int_abs overflow");
+#endif
       variable->dp = (value.dp > 0) ? value.dp : -value.dp;
       break;
 
@@ -1258,10 +1300,9 @@ void osl_int_abs(const int precision, osl_int_t* const variable,
 size_t lllog2(long long int x) {
   size_t n = 0;
 
-  x = llabs(x);
-
+  // x may have no opposite, and shifting a negative number never ends.
   while (x) {
-    x >>= 1;
+    x /= 2;
     ++n;
   }
 
@@ -1296,8 +1337,7 @@ size_t osl_int_size_in_base_2(const int precision, const osl_int_t value) {
 size_t lllog10(long long int x) {
   size_t n = 0;
 
-  x = llabs(x);
-
+  // x may have no opposite: no absolute value here.
   while (x) {
     x /= 10;
     ++n;
-- 
2.43.0


From 1f9159c433d5415ef95d52c13803e73aa9a81491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:05 +0000
Subject: [PATCH 67/67] fix: refuse a body that lists other than the announced
 number of iterators

---
 source/body.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/body.c b/source/body.c
index 701df30..3f5ae14 100644
--- a/source/body.c
+++ b/source/body.c
@@ -246,10 +246,14 @@ osl_body_t* osl_body_sread(char** input) {
 
     // Read the number of iterators.
     nb_iterators = osl_util_read_int(NULL, input);
+    if (nb_iterators < 0)
+      OSL_error("negative number of original iterators");
 
     // Read the iterator strings if any.
     if (nb_iterators > 0) {
       body->iterators = osl_strings_sread(input);
+      if (osl_strings_size(body->iterators) != (size_t)nb_iterators)
+        OSL_error("wrong number of original iterators");
     } else {
       body->iterators = osl_strings_malloc();
     }
-- 
2.43.0

