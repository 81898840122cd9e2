From 76494ba7ade3287f21c3b78fcb0576c2774e4f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 01/89] fix: init_time: return the extended environment

The function ended without a return statement, so the environment handed
to make_initial_module was whatever the return register happened to hold.
---
 src/posix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/posix.c b/src/posix.c
index bfb1bcd..6ed2ba3 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -391,7 +391,7 @@ struct scm *
 init_time (struct scm *a)               /*:((internal)) */
 {
   clock_gettime (CLOCK_PROCESS_CPUTIME_ID, g_start_time);
-  a = acons (cell_symbol_internal_time_units_per_second, make_number (TIME_UNITS_PER_SECOND), a);
+  return acons (cell_symbol_internal_time_units_per_second, make_number (TIME_UNITS_PER_SECOND), a);
 }
 
 struct scm *
-- 
2.43.0


From fc951730dca1b50933904cc2cfeec62cebeceeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 02/89] fix: memcmp, strcmp, strncmp: compare as unsigned char

---
 lib/string/memcmp.c  | 3 ++-
 lib/string/strcmp.c  | 3 ++-
 lib/string/strncmp.c | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/string/memcmp.c b/lib/string/memcmp.c
index ca72f63..b77a18b 100644
--- a/lib/string/memcmp.c
+++ b/lib/string/memcmp.c
@@ -36,5 +36,6 @@ memcmp (void const *s1, void const *s2, size_t size)
       b = b + 1;
     }
 
-  return a[0] - b[0];
+  /* compare as unsigned char */
+  return (a[0] & 255) - (b[0] & 255);
 }
diff --git a/lib/string/strcmp.c b/lib/string/strcmp.c
index b0fee26..9d3cb0d 100644
--- a/lib/string/strcmp.c
+++ b/lib/string/strcmp.c
@@ -29,5 +29,6 @@ strcmp (char const *a, char const *b)
       b = b + 1;
     }
 
-  return a[0] - b[0];
+  /* compare as unsigned char */
+  return (a[0] & 255) - (b[0] & 255);
 }
diff --git a/lib/string/strncmp.c b/lib/string/strncmp.c
index 75c84b7..b3f5836 100644
--- a/lib/string/strncmp.c
+++ b/lib/string/strncmp.c
@@ -33,5 +33,6 @@ strncmp (char const *a, char const *b, size_t size)
       b = b + 1;
     }
 
-  return a[0] - b[0];
+  /* compare as unsigned char */
+  return (a[0] & 255) - (b[0] & 255);
 }
-- 
2.43.0


From 33ecd7b694b4b577f0a63dbd5aafba5f46542c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 03/89] fix: memchr, strchr: convert the searched character to
 a byte

---
 lib/string/memchr.c | 3 ++-
 lib/string/strchr.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/string/memchr.c b/lib/string/memchr.c
index 255fdf6..e7cd2c0 100644
--- a/lib/string/memchr.c
+++ b/lib/string/memchr.c
@@ -24,11 +24,12 @@ void *
 memchr (void const *block, int c, size_t size)
 {
   char const *p = block;
+  c = c & 255;
 
   while (size != 0)
     {
       size = size - 1;
-      if (c == p[0])
+      if (c == (p[0] & 255))
         return (void*) p;
       p = p + 1;
     }
diff --git a/lib/string/strchr.c b/lib/string/strchr.c
index da1a707..3258fdc 100644
--- a/lib/string/strchr.c
+++ b/lib/string/strchr.c
@@ -24,9 +24,10 @@ char *
 strchr (char const *s, int c)
 {
   char const *p = s;
+  c = c & 255;
   while (*p || !c)
     {
-      if (c == *p)
+      if (c == (*p & 255))
         return (char *) p;
       p++;
     }
-- 
2.43.0


From 2100c05daccf5f5fa4f173bfb9658667f7069a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 04/89] fix: strrchr: match the terminator, the first byte and
 stop at start

---
 lib/string/strrchr.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/lib/string/strrchr.c b/lib/string/strrchr.c
index 08766fd..f794388 100644
--- a/lib/string/strrchr.c
+++ b/lib/string/strrchr.c
@@ -23,18 +23,13 @@
 char *
 strrchr (char const *s, int c)
 {
-  int n = strlen (s);
-  if (!n)
-    return 0;
-  char const *p = s + n;
-  if (!*p && !c)
-    return (char *) p;
-  p--;
-  while (n-- && (*p || !c))
+  char const *p = s + strlen (s);
+  c = c & 255;
+  while (c != (*p & 255))
     {
-      if (c == *p)
-        return (char *) p;
+      if (p == s)
+        return 0;
       p--;
     }
-  return 0;
+  return (char *) p;
 }
-- 
2.43.0


From fc8d828ade3946a81ea279b11979aa2dc6d14373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 05/89] fix: strpbrk: return null when no byte matches

---
 lib/string/strpbrk.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/string/strpbrk.c b/lib/string/strpbrk.c
index 57583ee..14000c4 100644
--- a/lib/string/strpbrk.c
+++ b/lib/string/strpbrk.c
@@ -26,8 +26,8 @@ strpbrk (char const *string, char const *stopset)
   char *p = (char *) string;
   while (*p)
     if (strchr (stopset, *p))
-      break;
+      return p;
     else
       p++;
-  return p;
+  return 0;
 }
-- 
2.43.0


From c77b464a28dced843687adb5babd7fc759e00813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 06/89] fix: strncat, strncpy: do not read past SIZE bytes

---
 lib/string/strncat.c | 2 +-
 lib/string/strncpy.c | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/string/strncat.c b/lib/string/strncat.c
index 9683f91..a604a20 100644
--- a/lib/string/strncat.c
+++ b/lib/string/strncat.c
@@ -26,7 +26,7 @@ strncat (char *to, char const *from, size_t size)
   if (size == 0)
     return to;
   char *p = strchr (to, '\0');
-  while (*from && size-- > 0)
+  while (size-- > 0 && *from)
     *p++ = *from++;
   *p = 0;
   return to;
diff --git a/lib/string/strncpy.c b/lib/string/strncpy.c
index 34ea0f8..a36d8bb 100644
--- a/lib/string/strncpy.c
+++ b/lib/string/strncpy.c
@@ -26,10 +26,11 @@ strncpy (char *to, char const *from, size_t size)
   if (size == 0)
     return to;
   char *p = to;
-  while (*from && size--)
-    *p++ = *from++;
-  if (*from)
-    size++;
+  while (size && *from)
+    {
+      *p++ = *from++;
+      size--;
+    }
   while (size--)
     *p++ = 0;
   return to;
-- 
2.43.0


From e32879eba3153a706ce3ddd12b92c80fe000908e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 07/89] fix: iscntrl, isxdigit, isnumber: cover DEL, upper-case
 digits and all bases

---
 lib/ctype/iscntrl.c  | 2 +-
 lib/ctype/isnumber.c | 7 +++++++
 lib/ctype/isxdigit.c | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/ctype/iscntrl.c b/lib/ctype/iscntrl.c
index 82d4c3d..73ad555 100644
--- a/lib/ctype/iscntrl.c
+++ b/lib/ctype/iscntrl.c
@@ -23,5 +23,5 @@
 int
 iscntrl (int c)
 {
-  return c >= 0 && c < 32;
+  return (c >= 0 && c < 32) || c == 127;
 }
diff --git a/lib/ctype/isnumber.c b/lib/ctype/isnumber.c
index 4c37886..0038315 100644
--- a/lib/ctype/isnumber.c
+++ b/lib/ctype/isnumber.c
@@ -31,4 +31,11 @@ isnumber (int c, int base)
     return isdigit (c);
   if (base == 16)
     return isxdigit (c);
+  if (base < 10)
+    return (c >= '0') && (c < '0' + base);
+  if (isdigit (c))
+    return 1;
+  if ((c >= 'a') && (c < 'a' + base - 10))
+    return 1;
+  return (c >= 'A') && (c < 'A' + base - 10);
 }
diff --git a/lib/ctype/isxdigit.c b/lib/ctype/isxdigit.c
index 13f7a66..b15546e 100644
--- a/lib/ctype/isxdigit.c
+++ b/lib/ctype/isxdigit.c
@@ -24,5 +24,5 @@
 int
 isxdigit (int c)
 {
-  return isdigit (c) || (c >= 'a' && c <= 'f');
+  return isdigit (c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
 }
-- 
2.43.0


From 6e9f015c7f4000569b36bbd677ead4b98e2bd8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 08/89] fix: abtol: accumulate in long, accept upper-case and
 mixed digits, one sign

---
 lib/mes/abtol.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/mes/abtol.c b/lib/mes/abtol.c
index 1f297b4..263e9ad 100644
--- a/lib/mes/abtol.c
+++ b/lib/mes/abtol.c
@@ -25,16 +25,16 @@ long
 abtol (char const **p, int base)
 {
   char const *s = p[0];
-  int i = 0;
+  long i = 0;
   int sign_p = 0;
-  int m = '0';
+  int m;
   if (base == 0)
     base = 10;
   while (isspace (s[0]) != 0)
     s = s + 1;
   if (s[0] != 0 && s[0] == '+')
     s = s + 1;
-  if (s[0] != 0 && s[0] == '-')
+  else if (s[0] != 0 && s[0] == '-')
     {
       sign_p = 1;
       s = s + 1;
@@ -42,8 +42,11 @@ abtol (char const **p, int base)
   while (isnumber (s[0], base) != 0)
     {
       i = i * base;
-      if (s[0] > '9')
+      m = '0';
+      if (s[0] >= 'a')
         m = 'a' - 10;
+      else if (s[0] >= 'A')
+        m = 'A' - 10;
       i = i + s[0] - m;
       s = s + 1;
     }
-- 
2.43.0


From 70e1aa408f51f5d65533476c215abb578733e59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 09/89] fix: atol: return a long

---
 include/stdlib.h  | 1 +
 lib/stdlib/atol.c | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/stdlib.h b/include/stdlib.h
index 592a387..078228f 100644
--- a/include/stdlib.h
+++ b/include/stdlib.h
@@ -39,6 +39,7 @@ typedef int (*comparison_fn_t) (void const *, void const *);
 void abort (void);
 double atof (char const *s);
 int atoi (char const *s);
+long atol (char const *s);
 int atexit (void (*function) (void));
 void *calloc (size_t nmemb, size_t size);
 void _exit (int status);
diff --git a/lib/stdlib/atol.c b/lib/stdlib/atol.c
index 9339537..aa327a0 100644
--- a/lib/stdlib/atol.c
+++ b/lib/stdlib/atol.c
@@ -18,10 +18,12 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <mes/lib.h>
 #include <stdlib.h>
 
-int
+long
 atol (char const *s)
 {
-  return atoi (s);
+  char const *p = s;
+  return abtol (&p, 0);
 }
-- 
2.43.0


From a2452b5bd09d85110c3dd5dc53fe038d2f6f5077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 10/89] fix: strtol: honour base, sign and whitespace before
 the prefix

---
 lib/stdlib/strtol.c | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/lib/stdlib/strtol.c b/lib/stdlib/strtol.c
index ff937d9..593f9b6 100644
--- a/lib/stdlib/strtol.c
+++ b/lib/stdlib/strtol.c
@@ -18,23 +18,43 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
-#include <mes/lib.h>
 #include <stdlib.h>
-#include <string.h>
+#include <ctype.h>
+#include <mes/lib.h>
 
 long
 strtol (char const *string, char **tailptr, int base)
 {
-  if (!strncmp (string, "0x", 2))
+  char const *s = string;
+  int sign_p = 0;
+  long i;
+
+  if (tailptr)
+    *tailptr = (char *) string;
+  while (isspace (s[0]))
+    s++;
+  if (s[0] == '-')
+    sign_p = 1;
+  if (s[0] == '-' || s[0] == '+')
+    s++;
+  if ((base == 0 || base == 16) && s[0] == '0'
+      && (s[1] == 'x' || s[1] == 'X') && isxdigit (s[2]))
     {
-      string += 2;
+      s += 2;
       base = 16;
     }
-  if (tailptr)
+  if (base == 0)
     {
-      *tailptr = (char *) string;
-      return abtol ((char const **) tailptr, base);
+      base = 10;
+      if (s[0] == '0')
+        base = 8;
     }
-  char **p = (char **) &string;
-  return abtol ((char const **) p, base);
+  if (!isnumber (s[0], base))
+    return 0;
+  i = abtol (&s, base);
+  if (tailptr)
+    *tailptr = (char *) s;
+  if (sign_p)
+    return -i;
+  return i;
 }
-- 
2.43.0


From 0a3a6d4fa184a2685b898e6cfda77cb7f818fb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 11/89] fix: ntoab: make room for every long

---
 lib/mes/ntoab.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mes/ntoab.c b/lib/mes/ntoab.c
index e75108b..0885ecd 100644
--- a/lib/mes/ntoab.c
+++ b/lib/mes/ntoab.c
@@ -38,8 +38,8 @@ char *
 ntoab (long x, unsigned base, int signed_p)
 {
   if (__itoa_buf == 0)
-    __itoa_buf = malloc (20);
-  char *p = __itoa_buf + 11;
+    __itoa_buf = malloc (72);
+  char *p = __itoa_buf + 71;
 
   p[0] = 0;
   p = p - 1;
-- 
2.43.0


From c43337f24cab30d00828b28f5c9b8ab5787b8a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 12/89] fix: ultoa: convert as unsigned

---
 lib/mes/ultoa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mes/ultoa.c b/lib/mes/ultoa.c
index 3319296..e769eb2 100644
--- a/lib/mes/ultoa.c
+++ b/lib/mes/ultoa.c
@@ -23,5 +23,5 @@
 char *
 ultoa (unsigned long x)
 {
-  return ntoab (x, 10, 1);
+  return ntoab (x, 10, 0);
 }
-- 
2.43.0


From 7dec0965b83e246f48bb19a5309e0b6ad757b075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 13/89] fix: qsort: order arrays with equal elements

---
 lib/stdlib/qsort.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/lib/stdlib/qsort.c b/lib/stdlib/qsort.c
index 68352f5..bbf66c1 100644
--- a/lib/stdlib/qsort.c
+++ b/lib/stdlib/qsort.c
@@ -54,11 +54,8 @@ qpart (void *base, size_t count, size_t size, int (*compare) (void const *, void
 #endif
           i++;
         }
-      else if (c == 0)
-        i++;
     }
-  if (compare (base + count * size, base + i * size) < 0)
-    qswap (base + i * size, base + count * size, size);
+  qswap (base + i * size, base + count * size, size);
   return i;
 }
 
@@ -67,13 +64,13 @@ qsort (void *base, size_t count, size_t size, int (*compare) (void const *, void
 {
   if (count > 1)
     {
-      int p = qpart (base, count - 1, size, compare);
+      size_t p = qpart (base, count - 1, size, compare);
       qsort (base, p, size, compare);
 #if 1                           //__x86_64__
-      qsort (base + p * size, count - p, size, compare);
+      qsort (base + (p + 1) * size, count - p - 1, size, compare);
 #else
-      int p1 = base + p * size;
-      int p2 = count - p;
+      int p1 = base + (p + 1) * size;
+      int p2 = count - p - 1;
       qsort (p1, p2, size, compare);
 #endif
     }
-- 
2.43.0


From be90e964991940b1f1f22a879856ae34da904eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 14/89] fix: malloc: return null when the kernel refuses memory

---
 lib/linux/malloc.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/linux/malloc.c b/lib/linux/malloc.c
index ea609d5..0d3952d 100644
--- a/lib/linux/malloc.c
+++ b/lib/linux/malloc.c
@@ -34,9 +34,13 @@ malloc (size_t size)
   /* align what we give back. */
   __brk = (char*) (((uintptr_t) __brk
                     + sizeof (max_align_t) - 1) & -sizeof (max_align_t));
-  if (brk (__brk + size) == -1)
-    return 0;
   char *p = __brk;
-  __brk = __brk + size;
+  char *end = p + size;
+  if (end < p)
+    return 0;
+  /* brk returns the unchanged program break upon failure. */
+  if (brk (end) != cast_charp_to_long (end))
+    return 0;
+  __brk = end;
   return p;
 }
-- 
2.43.0


From b13a5afbbbe8f858ce77e91517d6d1735e9c7c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 15/89] fix: calloc: detect overflow and a failed malloc

---
 lib/stdlib/calloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/stdlib/calloc.c b/lib/stdlib/calloc.c
index 1a10618..0328a8b 100644
--- a/lib/stdlib/calloc.c
+++ b/lib/stdlib/calloc.c
@@ -25,7 +25,10 @@ void *
 calloc (size_t nmemb, size_t size)
 {
   size_t count = nmemb * size;
+  if (size != 0 && count / size != nmemb)
+    return 0;
   void *p = malloc (count);
-  memset (p, 0, count);
+  if (p != 0)
+    memset (p, 0, count);
   return p;
 }
-- 
2.43.0


From 47b3807374b389bdb2b54c5e343abe8bc08faac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 16/89] fix: setenv: do not write past the entry or the vector;
 honour overwrite

---
 lib/posix/setenv.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/lib/posix/setenv.c b/lib/posix/setenv.c
index 321a5ab..a92dedd 100644
--- a/lib/posix/setenv.c
+++ b/lib/posix/setenv.c
@@ -42,15 +42,30 @@ setenv (char const *s, char const *v, int overwrite_p)
         }
       p = p + M2_PTR_SIZE;
     }
+  if (p[0] != 0 && overwrite_p == 0)
+    return 0;
   char *entry = malloc (length + strlen (v) + 2);
-  int end_p = p[0] == 0;
-  p[0] = entry;
+  if (entry == 0)
+    return -1;
   strcpy (entry, s);
   strcpy (entry + length, "=");
   strcpy (entry + length + 1, v);
-  entry[length + strlen (v) + 2] = 0;
-  if (end_p != 0)
-    p[1] = 0;
+  if (p[0] == 0)
+    {
+      /* There may be no room after the last entry: move to a larger vector. */
+      int count = 0;
+      while (environ[count] != 0)
+        count = count + 1;
+      char **e = malloc ((count + 2) * sizeof (char *));
+      if (e == 0)
+        return -1;
+      memcpy (e, environ, count * sizeof (char *));
+      e[count] = entry;
+      e[count + 1] = 0;
+      environ = e;
+      return 0;
+    }
+  p[0] = entry;
 
   return 0;
 }
-- 
2.43.0


From ab9c540429d1c846fe5465783fa0fd97ae3a48e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 17/89] fix: unsetenv: remove adjacent duplicates

---
 lib/posix/unsetenv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/posix/unsetenv.c b/lib/posix/unsetenv.c
index 726f626..efc186f 100644
--- a/lib/posix/unsetenv.c
+++ b/lib/posix/unsetenv.c
@@ -36,6 +36,7 @@ unsetenv (char const *name)
           while (*q++)
             q[0] = q[1];
         }
-      p++;
+      else
+        p++;
     }
 }
-- 
2.43.0


From 916b085992116ea9f0ee3306cecaf18c18dedd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 18/89] fix: divide: use the magnitude of a negative divisor

---
 src/math.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math.c b/src/math.c
index 2d0a502..880a197 100644
--- a/src/math.c
+++ b/src/math.c
@@ -171,6 +171,8 @@ divide (struct scm *x)                  /*:((name . "/") (arity . n)) */
       v = i->value;
       sign_p = sign_p && v > 0 || !sign_p && v < 0;
       w = v;
+      if (v < 0)
+        w = -v;
       if (v == 0)
         error (cstring_to_symbol ("divide-by-zero"), x);
       if (u == 0)
-- 
2.43.0


From de3aa15a29565ad93efa82695d3538ca0cf26fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 19/89] fix: modulo: operands of different sign

---
 src/math.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/math.c b/src/math.c
index 880a197..b952f47 100644
--- a/src/math.c
+++ b/src/math.c
@@ -196,20 +196,19 @@ modulo (struct scm *a, struct scm *b)
   long v = b->value;
   if (v == 0)
     error (cstring_to_symbol ("divide-by-zero"), a);
-  int sign_p = 0;
   size_t w = v;
   if (v < 0)
-    {
-      sign_p = 1;
-      w = -v;
-    }
-  while (n < 0)
-    n = n + w;
+    w = -v;
   size_t u = n;
+  if (n < 0)
+    u = -n;
   if (u != 0)
     u = u % w;
+  /* the result has the sign of v */
+  if (u != 0 && (n < 0) != (v < 0))
+    u = w - u;
   n = u;
-  if (sign_p)
+  if (v < 0)
     n = -n;
   return make_number (n);
 }
-- 
2.43.0


From e0f088968767158cf0567c9b5aa128e45bbac05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 20/89] fix: ash: counts beyond the word size

---
 src/math.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/math.c b/src/math.c
index b952f47..b1fcc3b 100644
--- a/src/math.c
+++ b/src/math.c
@@ -297,7 +297,16 @@ ash (struct scm *n, struct scm *count)
   long cn = n->value;
   long ccount = count->value;
   long result;
-  if (ccount < 0)
+  long bits = 8 * sizeof (long);
+  if (ccount <= -bits)
+    {
+      result = 0;
+      if (cn < 0)
+        result = -1;
+    }
+  else if (ccount >= bits)
+    result = 0;
+  else if (ccount < 0)
     result = cn >> -ccount;
   else
     result = cn << ccount;
-- 
2.43.0


From 4b7235afe93715777d697fde2c6e55e4dbc05c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 21/89] fix: =: check the type of every argument

---
 src/math.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math.c b/src/math.c
index b1fcc3b..3a101f1 100644
--- a/src/math.c
+++ b/src/math.c
@@ -96,6 +96,7 @@ is_p (struct scm *x)                    /*:((name . "=") (arity . n)) */
   while (x != cell_nil)
     {
       i = car (x);
+      assert_number ("is_p", i);
       v = i->value;
       if (v != n)
         return cell_f;
-- 
2.43.0


From a1f25630e113db3ea68282d6b97b01f84be401a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 22/89] fix: memq, assq: compare types before values

---
 src/core.c | 7 ++++---
 src/lib.c  | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core.c b/src/core.c
index 15585e4..06bc938 100644
--- a/src/core.c
+++ b/src/core.c
@@ -227,7 +227,7 @@ assq (struct scm *x, struct scm *a)
       long v = x->value;
       while (a != cell_nil)
         {
-          if (v == a->car->car->value)
+          if (a->car->car->type == t && v == a->car->car->value)
             return a->car;
           a = a->cdr;
         }
@@ -236,8 +236,9 @@ assq (struct scm *x, struct scm *a)
     {
       while (a != cell_nil)
         {
-          if (string_equal_p (x, a->car->car) == cell_t)
-            return a->car;
+          if (a->car->car->type == TKEYWORD)
+            if (string_equal_p (x, a->car->car) == cell_t)
+              return a->car;
           a = a->cdr;
         }
     }
diff --git a/src/lib.c b/src/lib.c
index f892553..facb948 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -74,7 +74,7 @@ memq (struct scm *x, struct scm *a)
       long v = x->value;
       while (a != cell_nil)
         {
-          if (v == a->car->value)
+          if (a->car->type == t && v == a->car->value)
             return a;
           a = a->cdr;
         }
-- 
2.43.0


From a0c702ab4368875a6c60e30926accdd6f5d76787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 23/89] fix: vector->list: do not share number and character
 cells

---
 src/vector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vector.c b/src/vector.c
index 0fc8404..0c87191 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -133,6 +133,11 @@ vector_to_list (struct scm *v)
       e = cell_ref (v->vector, i - 1);
       if (e->type == TREF)
         e = e->ref;
+      /* do not share the vector's own cell */
+      if (e->type == TCHAR)
+        e = make_char (e->value);
+      if (e->type == TNUMBER)
+        e = make_number (e->value);
       x = cons (e, x);
     }
   return x;
-- 
2.43.0


From c4d1f93c6223709bd005873e78a101986560c422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 24/89] fix: vector-ref, vector-set!: reject negative indices

---
 src/vector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 0c87191..5ab8f5c 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -68,7 +68,7 @@ struct scm *
 vector_ref_ (struct scm *x, long i)
 {
   assert_msg (x->type == TVECTOR, "x->type == TVECTOR");
-  assert_msg (i < x->length, "i < x->length");
+  assert_msg (i >= 0 && i < x->length, "i >= 0 && i < x->length");
   struct scm *e = cell_ref (x->vector, i);
   if (e->type == TREF)
     e = e->ref;
@@ -97,7 +97,7 @@ struct scm *
 vector_set_x_ (struct scm *x, long i, struct scm *e)
 {
   assert_msg (x->type == TVECTOR, "x->type == TVECTOR");
-  assert_msg (i < x->length, "i < x->length");
+  assert_msg (i >= 0 && i < x->length, "i >= 0 && i < x->length");
   copy_cell (cell_ref (x->vector, i), vector_entry (e));
   return cell_unspecified;
 }
-- 
2.43.0


From df4ba03dc929eb91baa3c74d1aea73cb03ef377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 25/89] fix: struct-ref, struct-set!: reject negative indices

---
 src/struct.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/struct.c b/src/struct.c
index 19162c7..754379d 100644
--- a/src/struct.c
+++ b/src/struct.c
@@ -58,7 +58,7 @@ struct scm *
 struct_ref_ (struct scm *x, long i)
 {
   assert_msg (x->type == TSTRUCT, "x->type == TSTRUCT");
-  assert_msg (i < x->length, "i < x->length");
+  assert_msg (i >= 0 && i < x->length, "i >= 0 && i < x->length");
   struct scm *e = cell_ref (x->structure, i);
   if (e->type == TREF)
     e = e->ref;
@@ -73,7 +73,7 @@ struct scm *
 struct_set_x_ (struct scm *x, long i, struct scm *e)
 {
   assert_msg (x->type == TSTRUCT, "x->type == TSTRUCT");
-  assert_msg (i < x->length, "i < x->length");
+  assert_msg (i >= 0 && i < x->length, "i >= 0 && i < x->length");
   copy_cell (cell_ref (x->structure, i), vector_entry (e));
   return cell_unspecified;
 }
-- 
2.43.0


From 464d77453a3f2b26515d8ae5a2130e23535bb335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 26/89] fix: hash: bytes above 127 must not give a negative
 hash

---
 src/hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index ed1bb5d..55f3fcd 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -26,10 +26,10 @@
 int
 hash_cstring (char const *s, long size)
 {
-  int hash = s[0] * 37;
+  int hash = (s[0] & 255) * 37;
   if (s[0] != 0)
     if (s[1] != 0)
-      hash = hash + (s[1] * 43);
+      hash = hash + ((s[1] & 255) * 43);
   assert_msg (size != 0, "size");
   hash = hash % size;
   return hash;
-- 
2.43.0


From e054e32e5ce4799fe30469a905b4a215cc70599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 27/89] fix: hashq-ref, hash-ref: return the default for absent
 keys

---
 src/hash.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index 55f3fcd..ebc8799 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -88,10 +88,10 @@ hashq_get_handle (struct scm *table, struct scm *key, struct scm *dflt)
 struct scm *
 hashq_ref (struct scm *table, struct scm *key, struct scm *dflt)
 {
-  struct scm *x = hashq_get_handle (table, key, dflt);
-  if (x != cell_f)
-    x = x->cdr;
-  return x;
+  struct scm *x = hashq_get_handle (table, key, cell_f);
+  if (x == cell_f)
+    return dflt;
+  return x->cdr;
 }
 
 struct scm *
@@ -103,15 +103,11 @@ hash_ref (struct scm *table, struct scm *key, struct scm *dflt)
   struct scm *buckets = struct_ref_ (table, 4);
   struct scm *bucket = vector_ref_ (buckets, hash);
   struct scm *x = cell_f;
-  if (dflt->type == TPAIR)
-    x = dflt->car;
   if (bucket->type == TPAIR)
-    {
-      x = assoc (key, bucket);
-      if (x != cell_f)
-        x = x->cdr;
-    }
-  return x;
+    x = assoc (key, bucket);
+  if (x == cell_f)
+    return dflt;
+  return x->cdr;
 }
 
 struct scm *
-- 
2.43.0


From ea0513343460cf26962c0cfb4db8860035effd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 28/89] fix: apply: do not leave the values object among the
 arguments

---
 src/eval-apply.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index bd09cb3..0692b51 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -310,7 +310,7 @@ apply_builtin (struct scm *fn, struct scm *x)   /*:((internal)) */
       d = x->cdr;
       if (d->type == TPAIR)
         if (d->car->type == TVALUES)
-          x = cons (a, cons (d->car->cdr->car, d));
+          x = cons (a, cons (d->car->cdr->car, d->cdr));
     }
 
   if (arity == 0)
-- 
2.43.0


From 9e01473a6b3dea9dda0b650e9bce7419dafc26fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 29/89] fix: last-pair: improper lists

---
 src/lib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.c b/src/lib.c
index facb948..5617bd6 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -147,7 +147,7 @@ last_pair (struct scm *x)
 {
   while (x != cell_nil)
     {
-      if (x->cdr == cell_nil)
+      if (x->cdr->type != TPAIR)
         return x;
       x = x->cdr;
     }
-- 
2.43.0


From 68925c656861582e4baddd8e79e838181da8521f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 30/89] fix: append2, append-reverse, reverse!: report improper
 lists

---
 src/core.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core.c b/src/core.c
index 06bc938..346e32e 100644
--- a/src/core.c
+++ b/src/core.c
@@ -166,11 +166,11 @@ append2 (struct scm *x, struct scm *y)
 {
   if (x == cell_nil)
     return y;
-  if (x->type != TPAIR)
-    error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("append2")));
   struct scm *r = cell_nil;
   while (x != cell_nil)
     {
+      if (x->type != TPAIR)
+        error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("append2")));
       r = cons (x->car, r);
       x = x->cdr;
     }
@@ -182,10 +182,10 @@ append_reverse (struct scm *x, struct scm *y)
 {
   if (x == cell_nil)
     return y;
-  if (x->type != TPAIR)
-    error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("append-reverse")));
   while (x != cell_nil)
     {
+      if (x->type != TPAIR)
+        error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("append-reverse")));
       y = cons (x->car, y);
       x = x->cdr;
     }
@@ -195,11 +195,11 @@ append_reverse (struct scm *x, struct scm *y)
 struct scm *
 reverse_x_ (struct scm *x, struct scm *t)
 {
-  if (x != cell_nil && x->type != TPAIR)
-    error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("core:reverse!")));
   struct scm *r = t;
   while (x != cell_nil)
     {
+      if (x->type != TPAIR)
+        error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("core:reverse!")));
       t = x->cdr;
       x->cdr = r;
       r = x;
-- 
2.43.0


From 4a9e3a9d9b6f410ce39f0f6423cf9b9ecd7de363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 31/89] fix: string-ref: reject the index behind the last,
 unsigned characters

---
 src/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/string.c b/src/string.c
index 171cb7b..f8e3259 100644
--- a/src/string.c
+++ b/src/string.c
@@ -229,8 +229,8 @@ string_ref (struct scm *str, struct scm *k)
   assert_msg (k->type == TNUMBER, "k->type == TNUMBER");
   size_t size = str->length;
   size_t i = k->value;
-  if (i > size)
+  if (i >= size)
     error (cell_symbol_system_error, cons (make_string0 ("value out of range"), k));
   char const *p = cell_bytes (str->string);
-  return make_char (p[i]);
+  return make_char (p[i] & 255);
 }
-- 
2.43.0


From 0ddc964cd7f8b94cf464661b28e863e66701b8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 32/89] fix: string buffer: check the size before copying, make
 room for the terminator

---
 src/gc.c     | 3 ++-
 src/string.c | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index 62643bb..d130655 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -114,7 +114,8 @@ gc_init ()
   g_free = g_cells + M2_CELL_SIZE;
 
   /* FIXME: remove MES_MAX_STRING, grow dynamically. */
-  g_buf = malloc (MAX_STRING);
+  /* Room for one character past the limit and the terminator. */
+  g_buf = malloc (MAX_STRING + 2);
 }
 
 long
diff --git a/src/string.c b/src/string.c
index f8e3259..9226b39 100644
--- a/src/string.c
+++ b/src/string.c
@@ -205,11 +205,11 @@ string_append (struct scm *x)           /*:((arity . n)) */
     {
       string = x->car;
       assert_msg (string->type == TSTRING, "string->type == TSTRING");
-      memcpy (p, cell_bytes (string->string), string->length + 1);
-      p = p + string->length;
       size = size + string->length;
       if (size > MAX_STRING)
         assert_max_string (size, "string_append", g_buf);
+      memcpy (p, cell_bytes (string->string), string->length + 1);
+      p = p + string->length;
       x = x->cdr;
     }
   return make_string (g_buf, size);
-- 
2.43.0


From 961e7790b202a46faa424a8d8127adc57223d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 33/89] fix: reader: keep the sign of identifiers that start
 like a number

---
 src/reader.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 6b42178..3bdf023 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -74,13 +74,13 @@ reader_read_identifier_or_number (int c)
   int i = 0;
   long n = 0;
   int negative_p = 0;
-  if (c == '+')
-    if (isdigit (peekchar ()) != 0)
-      c = readchar ();
-  if (c == '-')
+  if (c == '+' || c == '-')
     if (isdigit (peekchar ()) != 0)
       {
-        negative_p = 1;
+        if (c == '-')
+          negative_p = 1;
+        g_buf[i] = c;
+        i = i + 1;
         c = readchar ();
       }
   while (isdigit (c) != 0)
-- 
2.43.0


From 9098bb013682b8b851ac1896b15079b6d14837d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 34/89] fix: reader: skip carriage return and vertical tab
 between data

---
 src/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 3bdf023..989296a 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -121,7 +121,7 @@ reset_reader:
       c = reader_read_line_comment (c);
       goto reset_reader;
     }
-  if ((c == ' ') || (c == '\t') || (c == '\n') || (c == '\f'))
+  if (isspace (c) != 0)
     {
       c = readchar ();
       goto reset_reader;
-- 
2.43.0


From 7a1b5e535ba5381186ab05620cb8cbfeec57fde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 35/89] fix: reader: report end of file in strings and block
 comments

---
 src/reader.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 989296a..d18ee9c 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -199,13 +199,17 @@ read_env (struct scm *a)
 struct scm *
 reader_read_block_comment (int s, int c)
 {
-  if (c == s)
-    if (peekchar () == '#')
-      {
-        readchar ();
-        return cell_unspecified;
-      }
-  return reader_read_block_comment (s, readchar ());
+  while (c != EOF)
+    {
+      if (c == s)
+        if (peekchar () == '#')
+          {
+            readchar ();
+            return cell_unspecified;
+          }
+      c = readchar ();
+    }
+  error (cell_symbol_system_error, make_string0 ("EOF in block comment"));
 }
 
 struct scm *
@@ -447,6 +451,8 @@ reader_read_string ()
       c = readchar ();
       if (c == '"')
         break;
+      if (c == EOF)
+        error (cell_symbol_system_error, make_string0 ("EOF in string"));
       if (c == '\\')
         {
           c = readchar ();
-- 
2.43.0


From 9ca9a4fb0e90ee66c1c9ab3d72342921ca202f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 36/89] fix: reader: check the length of identifiers

---
 src/reader.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index d18ee9c..68be5ae 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -71,7 +71,7 @@ reader_end_of_word_p (int c)
 struct scm *
 reader_read_identifier_or_number (int c)
 {
-  int i = 0;
+  size_t i = 0;
   long n = 0;
   int negative_p = 0;
   if (c == '+' || c == '-')
@@ -85,6 +85,8 @@ reader_read_identifier_or_number (int c)
       }
   while (isdigit (c) != 0)
     {
+      if (i > MAX_STRING)
+        assert_max_string (i, "reader_read_identifier_or_number", g_buf);
       g_buf[i] = c;
       i = i + 1;
       n = n * 10;
@@ -101,6 +103,8 @@ reader_read_identifier_or_number (int c)
   /* Fallthrough: Note that `4a', `+1b' are identifiers */
   while (reader_end_of_word_p (c) == 0)
     {
+      if (i > MAX_STRING)
+        assert_max_string (i, "reader_read_identifier_or_number", g_buf);
       g_buf[i] = c;
       i = i + 1;
       c = readchar ();
-- 
2.43.0


From 3dd1b281911c7510f47edea6586ed94d6390ae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 37/89] fix: reader: hexadecimal characters with upper case
 digits

---
 src/reader.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 68be5ae..e47a7fa 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -295,13 +295,10 @@ reader_read_character ()
           p = peekchar ();
         }
     }
-  else if (c == 'x' && ((p >= '0' && p <= '9') || (p >= 'a' && p <= 'f') || (p >= 'F' && p <= 'F')))
+  else if (c == 'x' && ((p >= '0' && p <= '9') || (p >= 'a' && p <= 'f') || (p >= 'A' && p <= 'F')))
     {
       struct scm *n = reader_read_hex ();
       c = n->value;
-      eputs ("reading hex c=");
-      eputs (itoa (c));
-      eputs ("\n");
     }
   else if (((c >= 'a' && c <= 'z') || c == '*') && ((p >= 'a' && p <= 'z') || p == '*'))
     {
-- 
2.43.0


From 1e08ac27f43af8be18858734ebadbd7cf35f755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 38/89] fix: reader: character names longer than the buffer

---
 src/reader.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.c b/src/reader.c
index e47a7fa..7b5539d 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -307,6 +307,8 @@ reader_read_character ()
       i = i + 1;
       while ((p >= 'a' && p <= 'z') || p == '*')
         {
+          if (i == 9)
+            error (cell_symbol_system_error, make_string0 ("char not supported"));
           buf[i] = readchar ();
           i = i + 1;
           p = peekchar ();
-- 
2.43.0


From 864676f95620452f53e8db89d338f1f4472d5bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 39/89] fix: reader: datum comment before a closing parenthesis

---
 src/reader.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reader.c b/src/reader.c
index 7b5539d..bc0b3cb 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -173,6 +173,12 @@ reader_eat_whitespace (int c)
           reader_read_block_comment (c, readchar ());
           return reader_eat_whitespace (readchar ());
         }
+      if (p == ';')
+        {
+          readchar ();
+          reader_read_sexp_ (readchar (), cell_nil);
+          return reader_eat_whitespace (readchar ());
+        }
     }
   return c;
 }
-- 
2.43.0


From a47255c82235cd618a95189893ef32b2bd15d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 40/89] fix: reader: end of file after a line comment, nothing
 after a dot

---
 src/reader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index bc0b3cb..5bdda75 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -49,7 +49,7 @@ reader_read_line_comment (int c)
         return c;
       c = readchar ();
     }
-  error (cell_symbol_system_error, make_string0 ("reader_read_line_comment"));
+  return c;
 }
 
 struct scm *reader_read_block_comment (int s, int c);
@@ -195,6 +195,8 @@ reader_read_list (int c, struct scm *a)
   if (s == cell_dot)
     {
       s = reader_read_list (readchar (), a);
+      if (s->type != TPAIR)
+        error (cell_symbol_not_a_pair, make_string0 ("nothing after . in list"));
       return s->car;
     }
   return cons (s, reader_read_list (readchar (), a));
-- 
2.43.0


From 5ce7a75b86cc8399d2a22b4d9903100fae70e6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 41/89] fix: string ports: bytes above 127

---
 src/posix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/posix.c b/src/posix.c
index 6ed2ba3..5505a94 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -74,7 +74,7 @@ peekchar ()
   if (length == 0)
     return -1;
   char const *p = cell_bytes (string->string);
-  return p[0];
+  return p[0] & 255;
 }
 
 int
@@ -88,7 +88,7 @@ readchar ()
   if (length == 0)
     return -1;
   char const *p = cell_bytes (string->string);
-  int c = p[0];
+  int c = p[0] & 255;
   p = p + 1;
   port->string = make_string (p, length - 1);
   return c;
-- 
2.43.0


From 7c71e9282b31f08d1bcc2ddee96e081259411fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:24 +0000
Subject: [PATCH 42/89] fix: display: numbers wider than int

---
 src/display.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/display.c b/src/display.c
index 0d6db3a..a40b96e 100644
--- a/src/display.c
+++ b/src/display.c
@@ -144,7 +144,7 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
     }
   else if (t == TNUMBER)
     {
-      fdputs (itoa (x->value), fd);
+      fdputs (ltoa (x->value), fd);
     }
   else if (t == TPAIR)
     {
-- 
2.43.0


From d4e810640de2c7b8c96acba58add22210886611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 43/89] fix: write: characters without a name and not printable

---
 src/display.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/display.c b/src/display.c
index a40b96e..f8bfd69 100644
--- a/src/display.c
+++ b/src/display.c
@@ -49,12 +49,16 @@ fdwrite_char (char v, int fd)
     fdputs ("\\return", fd);
   else if (v == ' ')
     fdputs ("\\space", fd);
-  else
+  else if (v > 32 && v < 127)
     {
-      if (v >= 32 && v <= 127)
-        fdputc ('\\', fd);
+      fdputc ('\\', fd);
       fdputc (v, fd);
     }
+  else
+    {
+      fdputs ("\\x", fd);
+      fdputs (ntoab (v & 255, 16, 0), fd);
+    }
 }
 
 void
-- 
2.43.0


From 871b7a1139b78d1db9ae4aba77fce9c476dde4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 44/89] fix: display: strings with a nul character

---
 src/display.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/display.c b/src/display.c
index f8bfd69..790f663 100644
--- a/src/display.c
+++ b/src/display.c
@@ -209,7 +209,12 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
           fdputc ('"', fd);
         }
       else
-        fdputs (cell_bytes (x->string), fd);
+        {
+          char *s = cell_bytes (x->string);
+          long i;
+          for (i = 0; i < x->length; i = i + 1)
+            fdputc (s[i], fd);
+        }
     }
   else if (t == TSPECIAL || t == TSYMBOL)
     fdwrite_string (cell_bytes (x->string), x->length, fd);
-- 
2.43.0


From 1d10783b18ce8691198219d105089dd2f04af4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 45/89] fix: eval: the operator expression is evaluated once

---
 src/eval-apply.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index 0692b51..43054f0 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -686,9 +686,10 @@ eval:
           gc_check ();
           goto eval;
         eval_check_func:
-          push_cc (R2->cdr, R2, R0, cell_vm_eval2);
+          push_cc (R2->cdr, cons (R1, R2), R0, cell_vm_eval2);
           goto evlis;
         eval2:
+          check_apply (R2->car, R2->cdr->car);
           R1 = cons (R2->car, R1);
           goto apply;
         }
-- 
2.43.0


From 2fa6f74be93742e36ca562d23e454140993fd1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 46/89] fix: call-with-values: a producer that returns one
 value

---
 src/eval-apply.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index 43054f0..f23fe21 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -968,6 +968,8 @@ call_with_values:
 call_with_values2:
   if (R1->type == TVALUES)
     R1 = R1->cdr;
+  else
+    R1 = cons (R1, cell_nil);
   R1 = cons (R2->cdr->car, R1);
   goto apply;
 
-- 
2.43.0


From 08828ef29ff330ea047136f2562995aa64e48a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 47/89] fix: call/cc: escape with a value, and run a catch
 handler outside its catch

---
 mes/module/mes/catch.mes | 24 +++++++++++-------------
 src/eval-apply.c         |  7 ++++++-
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/mes/module/mes/catch.mes b/mes/module/mes/catch.mes
index 45d8235..fad304d 100644
--- a/mes/module/mes/catch.mes
+++ b/mes/module/mes/catch.mes
@@ -34,19 +34,17 @@
 
 (define (catch key thunk handler)
   (let ((previous-eh (fluid-ref %eh)))
-    (with-fluid*
-        %eh #f
-        (lambda ()
-          (call/cc
-           (lambda (cc)
-             (fluid-set! %eh
-                         (lambda (k . args)
-                           (let ((handler (if (or (eq? key #t) (eq? key k)) handler
-                                              previous-eh)))
-                             (cc
-                              (lambda (x)
-                                (apply handler (cons k args)))))))
-             (thunk)))))))
+    ((call/cc
+      (lambda (cc)
+        (fluid-set! %eh
+                    (lambda (k . args)
+                      (fluid-set! %eh previous-eh)
+                      (if (or (eq? key #t) (eq? key k))
+                          (cc (lambda () (apply handler (cons k args))))
+                          (apply previous-eh (cons k args)))))
+        (let ((r (thunk)))
+          (fluid-set! %eh previous-eh)
+          (lambda () r)))))))
 
 (define (throw key . args)
   (let ((handler (fluid-ref %eh)))
diff --git a/src/eval-apply.c b/src/eval-apply.c
index f23fe21..c032ef8 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -945,6 +945,7 @@ if_expr:
   goto vm_return;
 
 call_with_current_continuation:
+  R3 = cell_vm_return;
   gc_push_frame ();
   x = make_continuation (g_continuations);
   g_continuations = g_continuations + 1;
@@ -983,7 +984,11 @@ vm_return:
 struct scm *
 apply (struct scm *f, struct scm *x, struct scm *a)     /*:((internal)) */
 {
+  long base = g_stack;
   push_cc (cons (f, x), cell_unspecified, R0, cell_unspecified);
   R3 = cell_vm_apply;
-  return eval_apply ();
+  x = eval_apply ();
+  if (g_stack > base)
+    exit (0);      /* A continuation left this call, and the program ended. */
+  return x;
 }
-- 
2.43.0


From 423d8738cb79acb108e13404e6e266de16f8ee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 48/89] fix: or, cond, map: no variable capture; map of three
 lists

---
 mes/module/mes/base.mes    | 17 +++++++++--------
 mes/module/mes/boot-0.scm  |  4 ++--
 mes/module/mes/boot-02.scm |  4 ++--
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/mes/module/mes/base.mes b/mes/module/mes/base.mes
index 027a434..ecabc85 100644
--- a/mes/module/mes/base.mes
+++ b/mes/module/mes/base.mes
@@ -83,8 +83,8 @@
 (define-macro (or . x)
   (if (null? x) #f
       (if (null? (cdr x)) (car x)
-          (list (list 'lambda (list 'r)
-                      (list 'if 'r 'r
+          (list (list 'lambda (list '%or)
+                      (list 'if '%or '%or
                             (cons 'or (cdr x))))
                 (car x)))))
 
@@ -106,13 +106,13 @@
         (list (cons
                'lambda
                (cons
-                '(test)
-                (list (list 'if 'test
+                '(%test)
+                (list (list 'if '%test
                             (if (pair? (cdr (car clauses)))
                                 (if (eq? (car (cdr (car clauses))) '=>)
-                                    (append2 (cdr (cdr (car clauses))) '(test))
-                                    (list (cons 'lambda (cons '() (cons 'test (cdr (car clauses)))))))
-                                (list (cons 'lambda (cons '() (cons 'test (cdr (car clauses)))))))
+                                    (append2 (cdr (cdr (car clauses))) '(%test))
+                                    (list (cons 'lambda (cons '() (cons '%test (cdr (car clauses)))))))
+                                (list (cons 'lambda (cons '() (cons '%test (cdr (car clauses)))))))
                             (if (pair? (cdr clauses))
                                 (cons 'cond (cdr clauses)))))))
               (car (car clauses)))))
@@ -122,7 +122,8 @@
 (define (map f h . t)
   (if (or (null? h)
           (and (pair? t) (null? (car t)))
-          (and (pair? t) (pair? (cdr t)) (null? (cadr t)))) '()
+          (and (pair? t) (pair? (cdr t)) (null? (cadr t)))
+          (and (pair? t) (pair? (cdr t)) (pair? (cddr t)) (null? (caddr t)))) '()
       (if (null? t) (cons (f (car h)) (map f (cdr h)))
           (if (null? (cdr t))
               (cons (f (car h) (caar t)) (map f (cdr h) (cdar t)))
diff --git a/mes/module/mes/boot-0.scm b/mes/module/mes/boot-0.scm
index 767a1f2..194adb6 100644
--- a/mes/module/mes/boot-0.scm
+++ b/mes/module/mes/boot-0.scm
@@ -89,8 +89,8 @@
 (define-macro (or . x)
   (if (null? x) #f
       (if (null? (cdr x)) (car x)
-          (list (list (quote lambda) (list (quote r))
-                      (list (quote if) (quote r) (quote r)
+          (list (list (quote lambda) (list (quote %or))
+                      (list (quote if) (quote %or) (quote %or)
                             (cons (quote or) (cdr x))))
                 (car x)))))
 
diff --git a/mes/module/mes/boot-02.scm b/mes/module/mes/boot-02.scm
index 4f09dae..e27e8d0 100644
--- a/mes/module/mes/boot-02.scm
+++ b/mes/module/mes/boot-02.scm
@@ -89,8 +89,8 @@
 (define-macro (or . x)
   (if (null? x) #f
       (if (null? (cdr x)) (car x)
-          (list (list (quote lambda) (list (quote r))
-                      (list (quote if) (quote r) (quote r)
+          (list (list (quote lambda) (list (quote %or))
+                      (list (quote if) (quote %or) (quote %or)
                             (cons (quote or) (cdr x))))
                 (car x)))))
 
-- 
2.43.0


From 3a82a6fe96fba5a9f5f1fbd1b86a855e6191777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 49/89] fix: named let: initial values are evaluated outside
 the scope of the name

---
 mes/module/mes/let.mes | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mes/module/mes/let.mes b/mes/module/mes/let.mes
index 0b2ea84..6627370 100644
--- a/mes/module/mes/let.mes
+++ b/mes/module/mes/let.mes
@@ -37,9 +37,10 @@
     ,@(map1 cadr bindings)))
 
 (define-macro (xnamed-let name bindings rest)
-  `(simple-let ((,name *unspecified*))
-     (set! ,name (lambda ,(map1 car bindings) ,@rest))
-     (,name ,@(map1 cadr bindings))))
+  `((simple-let ((,name *unspecified*))
+      (set! ,name (lambda ,(map1 car bindings) ,@rest))
+      ,name)
+    ,@(map1 cadr bindings)))
 
 (define-macro (let bindings-or-name . rest)
   (if (symbol? bindings-or-name)
-- 
2.43.0


From f5a9addc3ce453d3cbf096425d4a8a9a014b05b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 50/89] fix: quasiquote: nested levels

---
 mes/module/mes/quasiquote.mes | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/mes/module/mes/quasiquote.mes b/mes/module/mes/quasiquote.mes
index c1e610f..5362e9a 100644
--- a/mes/module/mes/quasiquote.mes
+++ b/mes/module/mes/quasiquote.mes
@@ -27,12 +27,23 @@
 
 (mes-use-module (mes base))
 
+(define (quasiquote-expand-nested x depth)
+  (cond ((vector? x) (list 'list->vector (quasiquote-expand-nested (vector->list x) depth)))
+        ((not (pair? x)) (cons 'quote (cons x '())))
+        ((eq? (car x) 'quasiquote)
+         (list 'cons (list 'quote 'quasiquote) (quasiquote-expand-nested (cdr x) (+ depth 1))))
+        ((memq (car x) '(unquote unquote-splicing))
+         (list 'cons (list 'quote (car x))
+               (if (= depth 1) (quasiquote-expand (cdr x))
+                   (quasiquote-expand-nested (cdr x) (- depth 1)))))
+        (else (list 'cons (quasiquote-expand-nested (car x) depth)
+                    (quasiquote-expand-nested (cdr x) depth)))))
+
 (define (quasiquote-expand x)
   (cond ((vector? x) (list 'list->vector (quasiquote-expand (vector->list x))))
         ((not (pair? x)) (cons 'quote (cons x '())))
-        ((eq? (car x) 'quasiquote) (quasiquote-expand (quasiquote-expand
-                                             (if (null? (cddr x)) (cadr x)
-                                                 (cons 'list (cdr x))))))
+        ((eq? (car x) 'quasiquote)
+         (list 'cons (list 'quote 'quasiquote) (quasiquote-expand-nested (cdr x) 1)))
         ((eq? (car x) 'unquote) (if (null? (cddr x)) (cadr x)
                                     (cons 'list (cdr x))))
         ((and (pair? (car x)) (eq? (caar x) 'unquote-splicing))
-- 
2.43.0


From 33c418a0d2c27dae00ea2b6592969e1f1a81533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 51/89] fix: case, do, <=, >=, odd?, string->number

---
 mes/module/mes/scm.mes | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index dadd358..a107fc4 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -31,6 +31,7 @@
 (define (cadddr x) (car (cdddr x)))
 
 (define-macro (case val . args)
+  (if (pair? val) `((lambda (%key) (case %key ,@args)) ,val)
   (if (null? args) #f
       (let ((clause (car args)))
         (let ((pred (car clause)))
@@ -40,7 +41,7 @@
                                       `(member ,val ',pred))
                                  (begin ,@body)
                                  (case ,val ,@(cdr args)))
-               `(begin ,@body)))))))
+               `(begin ,@body))))))))
 
 (define-macro (when expr . body)
   `(if ,expr
@@ -51,10 +52,12 @@
        ((lambda () ,@body))))
 
 (define-macro (do init test . body)
-  `(let loop ((,(caar init) ,(cadar init)))
-     (when (not ,@test)
-       ,@body
-       (loop ,@(cddar init)))))
+  `(let %do ,(map1 (lambda (b) (list (car b) (cadr b))) init)
+     (if ,(car test)
+         (begin *unspecified* ,@(cdr test))
+         (begin
+           ,@body
+           (%do ,@(map1 (lambda (b) (if (pair? (cddr b)) (caddr b) (car b))) init))))))
 
 (define (for-each f l . xr)
   (if (and (pair? l)
@@ -229,6 +232,7 @@
   (if (string-prefix? "#x" s) (string->number (string-drop s 2) 16)
       (let ((lst (string->list s)))
         (and (pair? lst)
+             (not (equal? lst '(#\-)))
              (let* ((radix (if (null? rest) 10 (car rest)))
                     (sign (if (and (pair? lst) (char=? (car lst) #\-)) -1 1))
                     (lst (if (= sign -1) (cdr lst) lst)))
@@ -236,7 +240,8 @@
                  (if (null? lst) (* sign n)
                      (let ((i (char->integer (car lst))))
                        (cond ((and (>= i (char->integer #\0))
-                                   (<= i (char->integer #\9)))
+                                   (<= i (char->integer #\9))
+                                   (< (- i (char->integer #\0)) radix))
                               (let ((d (char->integer #\0)))
                                 (loop (cdr lst) (+ (* n radix) (- i d)))))
                              ((and (= radix 16)
@@ -249,11 +254,11 @@
                                    (<= i (char->integer #\F)))
                               (let ((d (char->integer #\A)))
                                 (loop (cdr lst) (+ (* n radix) (- i (- d 10))))))
-                             ((= i (char->integer #\.)) ; minimal FLOAT support
+                             ((and (= radix 10) (= i (char->integer #\.))) ; minimal FLOAT support
                               (let ((fraction (cdr lst)))
-                                (if (null? fraction) n
+                                (if (null? fraction) (* sign n)
                                     (let ((fraction ((compose string->number list->string) fraction)))
-                                      (and fraction n))))) ; FLOAT as integer
+                                      (and fraction (* sign n)))))) ; FLOAT as integer
                              (else #f))))))))))
 
 (define inexact->exact identity)
@@ -316,12 +321,18 @@
 (define quotient /)
 
 (define (<= . rest)
-  (or (apply < rest)
-      (apply = rest)))
+  (or (null? rest)
+      (null? (cdr rest))
+      (and (not (> (car rest) (cadr rest)))
+           (or (null? (cddr rest))
+               (apply <= (cdr rest))))))
 
 (define (>= . rest)
-  (or (apply > rest)
-      (apply = rest)))
+  (or (null? rest)
+      (null? (cdr rest))
+      (and (not (< (car rest) (cadr rest)))
+           (or (null? (cddr rest))
+               (apply >= (cdr rest))))))
 
 (define (remainder x y)
   (- x (* (quotient x y) y)))
@@ -330,7 +341,7 @@
   (= 0 (remainder x 2)))
 
 (define (odd? x)
-  (= 1 (remainder x 2)))
+  (not (even? x)))
 
 (define (negative? x)
   (< x 0))
-- 
2.43.0


From a8a27944de60e7f1ac2d42d723d42557dc0ea165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 52/89] fix: fold, fold-right: three lists; delete-duplicates
 keeps the first

---
 mes/module/srfi/srfi-1.mes | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/mes/module/srfi/srfi-1.mes b/mes/module/srfi/srfi-1.mes
index 8a69b7b..f925623 100644
--- a/mes/module/srfi/srfi-1.mes
+++ b/mes/module/srfi/srfi-1.mes
@@ -62,12 +62,13 @@
             (if (or (null? lst1)
                     (null? lst2)) result
                     (loop (cdr lst1) (cdr lst2) (proc (car lst1) (car lst2) result))))
-          (let loop ((lst1 lst1) (lst2 (car rest)) (lst3 (cadr rest)) (result init))
-            (if (or (null? lst1)
-                    (null? lst2)
-                    (null? lst3)) result
-                    (loop (cdr lst1) (cdr lst2) (cdr lst3) (proc (car lst1) (car lst2) (car lst3) result))))
-          (error "FOLD-4-NOT-SUPPORTED"))))
+          (if (null? (cddr rest))
+              (let loop ((lst1 lst1) (lst2 (car rest)) (lst3 (cadr rest)) (result init))
+                (if (or (null? lst1)
+                        (null? lst2)
+                        (null? lst3)) result
+                        (loop (cdr lst1) (cdr lst2) (cdr lst3) (proc (car lst1) (car lst2) (car lst3) result))))
+              (error "FOLD-4-NOT-SUPPORTED")))))
 
 (define (fold-right proc init lst1 . rest)
   (if (null? rest)
@@ -79,12 +80,13 @@
             (if (or (null? lst1)
                     (null? lst2)) init
                     (proc (car lst1) (car lst2) (loop (cdr lst1) (cdr lst2)))))
-          (let loop ((lst1 lst1) (lst2 (car rest)) (lst3 (cadr rest)))
-            (if (or (null? lst1)
-                    (null? lst2)
-                    (null? lst3)) init
-                    (proc (car lst1) (car lst2) (car lst3) (loop (cdr lst1) (cdr lst2) (cdr lst3)))))
-          (error "FOLD-RIGHT-4-NOT-SUPPORTED"))))
+          (if (null? (cddr rest))
+              (let loop ((lst1 lst1) (lst2 (car rest)) (lst3 (cadr rest)))
+                (if (or (null? lst1)
+                        (null? lst2)
+                        (null? lst3)) init
+                        (proc (car lst1) (car lst2) (car lst3) (loop (cdr lst1) (cdr lst2) (cdr lst3)))))
+              (error "FOLD-RIGHT-4-NOT-SUPPORTED")))))
 
 (define (unfold p f g seed . rest)
   (let ((tail-gen (if (null? rest) (const '())
@@ -133,13 +135,11 @@
 (define last (compose car last-pair))
 
 (define (delete-duplicates lst . equal)
-  (let ((equal (and (pair? equal) (car equal))))
+  (let ((equal (if (pair? equal) (car equal) equal?)))
     (let loop ((lst lst))
       (if (null? lst) '()
-          (if (if equal (member (car lst) (cdr lst) equal)
-                  (member (car lst) (cdr lst)))
-              (loop (cdr lst))
-                (cons (car lst) (loop (cdr lst))))))))
+          (cons (car lst)
+                (loop (remove (lambda (x) (equal (car lst) x)) (cdr lst))))))))
 
 (include-from-path "srfi/srfi-1.scm")
 
-- 
2.43.0


From 102db0852834a0a8f63714af169783974ee712b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 53/89] fix: string-delete with a predicate, string-contains
 with an empty needle

---
 mes/module/srfi/srfi-13.mes | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mes/module/srfi/srfi-13.mes b/mes/module/srfi/srfi-13.mes
index dfd1c54..0e72987 100644
--- a/mes/module/srfi/srfi-13.mes
+++ b/mes/module/srfi/srfi-13.mes
@@ -81,8 +81,8 @@
 
 (define (string-delete pred s)
   (let ((p (if (procedure? pred) pred
-               (lambda (c) (not (eq? pred c))))))
-    (list->string (filter p (string->list s)))))
+               (lambda (c) (eq? pred c)))))
+    (list->string (filter (negate p) (string->list s)))))
 
 (define (string-index s pred . rest)
   (let* ((start (and (pair? rest) (car rest)))
@@ -134,14 +134,14 @@
 (define (string-contains string needle)
   (let ((needle (string->list needle)))
     (let loop ((string (string->list string)) (i 0))
-      (and (pair? string)
-           (let match ((start string) (needle needle) (n i))
-             (if (null? needle) i
-                 (and (pair? start)
-                      (if (eq? (car start) (car needle))
-                          (or (match (cdr start) (cdr needle) (1+ n))
-                              (loop (cdr string) (1+ i)))
-                          (loop (cdr string) (1+ i))))))))))
+      (if (let match ((start string) (needle needle))
+            (or (null? needle)
+                (and (pair? start)
+                     (eq? (car start) (car needle))
+                     (match (cdr start) (cdr needle)))))
+          i
+          (and (pair? string)
+               (loop (cdr string) (1+ i)))))))
 
 (define (string-trim string . pred)
   (list->string
-- 
2.43.0


From 3db38a822dab0a597ff2da34aec3a314e50780d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 54/89] fix: srfi-26: cut with <...>, cute

---
 mes/module/srfi/srfi-26.scm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mes/module/srfi/srfi-26.scm b/mes/module/srfi/srfi-26.scm
index f3b5032..949c120 100644
--- a/mes/module/srfi/srfi-26.scm
+++ b/mes/module/srfi/srfi-26.scm
@@ -40,7 +40,7 @@
 	   (if (pair? rest)
 	       (error "<...> not on the end of cut expression"))
 	   (let ((var (gensym)))
-	     `(lambda ,(append! (reverse! params) var)
+	     `(lambda ,(append (reverse! params) var)
 		(apply ,@(reverse! (cons var args))))))
 	  (else
 	   (loop rest params (cons s args))))))))
@@ -48,5 +48,5 @@
 (define-macro (cute . slots)
   (let ((temp (map (lambda (s) (and (not (memq s '(<> <...>))) (gensym)))
 		   slots)))
-    `(let ,(delq! #f (map (lambda (t s) (and t (list t s))) temp slots))
+    `(let ,(delq #f (map (lambda (t s) (and t (list t s))) temp slots))
        (cut ,@(map (lambda (t s) (or t s)) temp slots)))))
-- 
2.43.0


From f034399fcb5d5a6bef1ad2796a1fd6d84954ad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 55/89] fix: string-take of nothing is the empty string

---
 mes/module/srfi/srfi-13.mes | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mes/module/srfi/srfi-13.mes b/mes/module/srfi/srfi-13.mes
index 0e72987..5d14ad2 100644
--- a/mes/module/srfi/srfi-13.mes
+++ b/mes/module/srfi/srfi-13.mes
@@ -62,7 +62,7 @@
                         (list (list->string (list-head lst (- (length lst) (length rest)))))))))))
 
 (define (string-take s n)
-  (cond ((zero? n) s)
+  (cond ((zero? n) "")
         ((> n 0) (list->string (list-head (string->list s) n)))
         (else (error "string-take: not supported: n=" n))))
 
-- 
2.43.0


From b97a67b1a0a4f32c1d614255643fbff5e89f2072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 56/89] fix: record predicates on any object, constructor
 fields by name, hygienic set-field

---
 mes/module/srfi/srfi-9-struct.mes     | 14 ++++++++++----
 mes/module/srfi/srfi-9-vector.mes     |  9 ++++++---
 mes/module/srfi/srfi-9/gnu-struct.mes | 22 ++++++++++++----------
 mes/module/srfi/srfi-9/gnu-vector.mes | 20 +++++++++++---------
 4 files changed, 39 insertions(+), 26 deletions(-)

diff --git a/mes/module/srfi/srfi-9-struct.mes b/mes/module/srfi/srfi-9-struct.mes
index 0f50920..064c66b 100644
--- a/mes/module/srfi/srfi-9-struct.mes
+++ b/mes/module/srfi/srfi-9-struct.mes
@@ -50,15 +50,21 @@
 
 (define (record? o)
   (and (struct? o)
+       (struct? (struct-vtable o))
        (record-type? (struct-vtable o))))
 
 (define (record-constructor type name params)
-  (let ((fields (record-fields type))
-        (record-type (record-type type)))
+  (let* ((fields (record-fields type))
+         (ordered? (equal? params fields))
+         (indices (map (lambda (field) (lst-index params field)) fields)))
+    (for-each (lambda (param) (record-field-index type param)) params)
     (lambda (. o)
       (if (not (= (length o) (length params))) (error "wrong number of arguments for record-constructor")
-          (let ((rest (make-list (- (length fields) (length params)))))
-            (make-struct type (cons name (append o rest)) record-printer))))))
+          (make-struct type
+                       (cons name
+                             (if ordered? o
+                                 (map (lambda (i) (if i (list-ref o i) *unspecified*)) indices)))
+                       record-printer)))))
 
 (define record-printer *unspecified*)   ; TODO
 (define (record-printer o)
diff --git a/mes/module/srfi/srfi-9-vector.mes b/mes/module/srfi/srfi-9-vector.mes
index f9b436e..0480ad1 100644
--- a/mes/module/srfi/srfi-9-vector.mes
+++ b/mes/module/srfi/srfi-9-vector.mes
@@ -45,11 +45,14 @@
          (eq? (record-type o) type))))
 
 (define (record-constructor type params)
-  (let ((fields (record-fields type)))
+  (let* ((fields (record-fields type))
+         (indices (map (lambda (field) (lst-index params field)) fields)))
+    (for-each (lambda (param) (record-field-index type param)) params)
     (lambda (. o)
       (if (not (= (length o) (length params))) (error "wrong number of arguments for record-constructor")
-          (let ((rest (make-list (- (length fields) (length params)))))
-            (list->vector (cons type (append o rest))))))))
+          (list->vector
+           (cons type
+                 (map (lambda (i) (if i (list-ref o i) *unspecified*)) indices)))))))
 
 (define (record-fields o)
   (vector-ref o 2))
diff --git a/mes/module/srfi/srfi-9/gnu-struct.mes b/mes/module/srfi/srfi-9/gnu-struct.mes
index aacfc4d..ed9de76 100644
--- a/mes/module/srfi/srfi-9/gnu-struct.mes
+++ b/mes/module/srfi/srfi-9/gnu-struct.mes
@@ -26,13 +26,15 @@
   `(define-record-type ,type ,constructor+params ,predicate ,@(map (lambda (f) (list-head f 2)) fields)))
 
 (define-macro (set-field o getters value)
-  `(let ((getter ,(car getters)))
-     (let* ((type (struct-vtable ,o))
-            (name (record-type ,o))
-            (set (getter ,o #t)))
-       (define (field->value field)
-         (if (eq? set field) ,value
-             ((record-getter type field) ,o)))
-       (let* ((fields (record-fields type))
-              (values (map field->value fields)))
-         (apply (record-constructor type name fields) values)))))
+  `(record-set-field ,o ,(car getters) ,value))
+
+(define (record-set-field o getter value)
+  (let* ((type (struct-vtable o))
+         (name (record-type o))
+         (set (getter o #t)))
+    (define (field->value field)
+      (if (eq? set field) value
+          ((record-getter type field) o)))
+    (let* ((fields (record-fields type))
+           (values (map field->value fields)))
+      (apply (record-constructor type name fields) values))))
diff --git a/mes/module/srfi/srfi-9/gnu-vector.mes b/mes/module/srfi/srfi-9/gnu-vector.mes
index 6f7e084..e951c14 100644
--- a/mes/module/srfi/srfi-9/gnu-vector.mes
+++ b/mes/module/srfi/srfi-9/gnu-vector.mes
@@ -26,12 +26,14 @@
   `(define-record-type ,type ,constructor+params ,predicate ,@(map (lambda (f) (list-head f 2)) fields)))
 
 (define-macro (set-field o getters value)
-  `(let ((getter ,(car getters)))
-     (let ((type (record-type ,o))
-           (set (getter ,o #t)))
-       (define (field->value field)
-         (if (eq? set field) ,value
-             ((record-getter type field) ,o)))
-       (let* ((fields (record-fields type))
-              (values (map field->value fields)))
-         (apply (record-constructor type fields) values)))))
+  `(record-set-field ,o ,(car getters) ,value))
+
+(define (record-set-field o getter value)
+  (let ((type (record-type o))
+        (set (getter o #t)))
+    (define (field->value field)
+      (if (eq? set field) value
+          ((record-getter type field) o)))
+    (let* ((fields (record-fields type))
+           (values (map field->value fields)))
+      (apply (record-constructor type fields) values))))
-- 
2.43.0


From f0a78fa382ac24acde94b0c5ee19e58203d16f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 57/89] fix: getopt-long on empty words, and no expansion
 behind the first non-option

---
 module/mes/getopt-long.scm | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/module/mes/getopt-long.scm b/module/mes/getopt-long.scm
index 65355d9..884e985 100644
--- a/module/mes/getopt-long.scm
+++ b/module/mes/getopt-long.scm
@@ -226,8 +226,8 @@
     (cond ((null? opt-ls)
            (reverse ret-ls))                                    ;;; retval
           ((let ((opt (car opt-ls)))
-             (and (eq? (string-ref opt 0) #\-)
-                  (> (string-length opt) 1)
+             (and (> (string-length opt) 1)
+                  (eq? (string-ref opt 0) #\-)
                   (char-alphabetic? (string-ref opt 1))))
            (let* ((opt (car opt-ls))
                   (n (char->integer (string-ref opt 1)))
@@ -248,8 +248,14 @@
           (else (loop (cdr opt-ls)
                       (cons (car opt-ls) ret-ls))))))
 
+(define (clumped-singles? opt)
+  ;; example: "-abc5d"
+  (and (> (string-length opt) 2)
+       (eq? (string-ref opt 0) #\-)
+       (char-alphabetic? (string-ref opt 1))))
+
 (define (looks-like-an-option string)
-  (eq? (string-ref string 0) #\-))
+  (string-prefix? "-" string))
 
 (define (process-options specs argument-ls stop-at-first-non-option)
   ;; Use SPECS to scan ARGUMENT-LS; return (FOUND . ETC).
@@ -308,9 +314,14 @@
 
         (if (null? argument-ls)
             (cons found (reverse etc))                          ;;; retval
-            (cond ((let ((opt (car argument-ls)))
-                     (and (eq? (string-ref opt 0) #\-)
-                          (> (string-length opt) 1)
+            (cond ((clumped-singles? (car argument-ls))
+                   (loop (append (expand-clumped-singles (list (car argument-ls)))
+                                 (cdr argument-ls))
+                         found
+                         etc))
+                  ((let ((opt (car argument-ls)))
+                     (and (> (string-length opt) 1)
+                          (eq? (string-ref opt 0) #\-)
                           (let ((n (char->integer (string-ref opt 1))))
                             (or (and (>= n (char->integer #\A)) (<= n (char->integer #\Z)))
                                 (and (>= n (char->integer #\a)) (<= n (char->integer #\z)))))))
@@ -320,6 +331,7 @@
                      (eat! spec argument-ls)))
                   ((let ((opt (car argument-ls)))
                      (and (string-prefix? "--" opt)
+                          (> (string-length opt) 2)
                           (let ((n (char->integer (string-ref opt 2))))
                             (or (and (>= n (char->integer #\A)) (<= n (char->integer #\Z)))
                                 (and (>= n (char->integer #\a)) (<= n (char->integer #\z)))))
@@ -331,6 +343,7 @@
                      (eat! spec argument-ls)))
                   ((let ((opt (car argument-ls)))
                      (and (string-prefix? "--" opt)
+                          (> (string-length opt) 2)
                           (let ((n (char->integer (string-ref opt 2))))
                             (or (and (>= n (char->integer #\A)) (<= n (char->integer #\Z)))
                                 (and (>= n (char->integer #\a)) (<= n (char->integer #\z)))))
@@ -340,7 +353,7 @@
                                   (string-index (car argument-ls) #\space)))
                           (opt (substring (car argument-ls) 2 is))
                           (spec (or (assoc-ref idx opt)
-                                    (error "no such option:" (substring opt is)))))
+                                    (error "no such option:" opt))))
                      (if (option-spec->value-policy spec)
                          (eat! spec (append
                                      (list 'ignored
@@ -388,7 +401,7 @@ if you want to allow the user to use single character options, you need
 to add a `single-char' clause to the option description."
   (let* ((specifications (map parse-option-spec option-desc-list))
 	 (pair (split-arg-list (cdr program-arguments) ))
-	 (split-ls (expand-clumped-singles (car pair)))
+	 (split-ls (car pair))
 	 (non-split-ls (cdr pair))
          (found/etc (process-options specifications split-ls
                                      stop-at-first-non-option))
-- 
2.43.0


From 88576bd8f147962dc34d33f7fcaa3cd084d32881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 58/89] fix: newline, read, read-char and read-string use the
 given port

---
 mes/module/mes/boot-0.scm  | 3 ++-
 mes/module/mes/boot-01.scm | 3 ++-
 mes/module/mes/boot-02.scm | 3 ++-
 mes/module/mes/boot-03.scm | 3 ++-
 mes/module/mes/scm.mes     | 1 +
 src/posix.c                | 9 +++++++--
 src/string.c               | 2 ++
 7 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/mes/module/mes/boot-0.scm b/mes/module/mes/boot-0.scm
index 194adb6..268527a 100644
--- a/mes/module/mes/boot-0.scm
+++ b/mes/module/mes/boot-0.scm
@@ -53,7 +53,8 @@
       (core:write-port x (car rest))))
 
 (define (newline . rest)
-  (core:display "\n"))
+  (if (null? rest) (core:display "\n")
+      (core:display-port "\n" (car rest))))
 
 (define (cadr x) (car (cdr x)))
 
diff --git a/mes/module/mes/boot-01.scm b/mes/module/mes/boot-01.scm
index c42bc81..7d3728b 100644
--- a/mes/module/mes/boot-01.scm
+++ b/mes/module/mes/boot-01.scm
@@ -43,7 +43,8 @@
       (core:write-port x (car rest))))
 
 (define (newline . rest)
-  (core:display "\n"))
+  (if (null? rest) (core:display "\n")
+      (core:display-port "\n" (car rest))))
 
 (define (cadr x) (car (cdr x)))
 
diff --git a/mes/module/mes/boot-02.scm b/mes/module/mes/boot-02.scm
index e27e8d0..a7756fd 100644
--- a/mes/module/mes/boot-02.scm
+++ b/mes/module/mes/boot-02.scm
@@ -53,7 +53,8 @@
       (core:write-port x (car rest))))
 
 (define (newline . rest)
-  (core:display "\n"))
+  (if (null? rest) (core:display "\n")
+      (core:display-port "\n" (car rest))))
 
 (define (cadr x) (car (cdr x)))
 
diff --git a/mes/module/mes/boot-03.scm b/mes/module/mes/boot-03.scm
index c4e8b61..32bbb9e 100644
--- a/mes/module/mes/boot-03.scm
+++ b/mes/module/mes/boot-03.scm
@@ -53,7 +53,8 @@
       (core:write-port x (car rest))))
 
 (define (newline . rest)
-  (core:display "\n"))
+  (if (null? rest) (core:display "\n")
+      (core:display-port "\n" (car rest))))
 
 (define (cadr x) (car (cdr x)))
 
diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index a107fc4..dcc34e6 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -92,6 +92,7 @@
   (if (null? port) (read-env (current-module))
       (let* ((prev (set-current-input-port (car port)))
              (result (read-env (current-module))))
+        (set-current-input-port prev)
         result)))
 
 (if (not (defined? 'peek-char))
diff --git a/src/posix.c b/src/posix.c
index 5505a94..b6cfd52 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -143,8 +143,13 @@ read_char (struct scm *port)            /*:((arity . n)) */
 {
   int fd = __stdin;
   if (port->type == TPAIR)
-    if (port->car->type == TNUMBER)
-      __stdin = port->car->value;
+    {
+      struct scm *p = port->car;
+      if (p->type == TNUMBER)
+        __stdin = p->value;
+      else if (p->type == TPORT)
+        __stdin = p->port;
+    }
   struct scm *c = make_char (readchar ());
   __stdin = fd;
   return c;
diff --git a/src/string.c b/src/string.c
index 9226b39..1c1c113 100644
--- a/src/string.c
+++ b/src/string.c
@@ -178,6 +178,8 @@ read_string (struct scm *port)          /*:((arity . n)) */
       struct scm *p = car (port);
       if (p->type == TNUMBER)
         __stdin = p->value;
+      else if (p->type == TPORT)
+        __stdin = p->port;
     }
   int c = readchar ();
   size_t i = 0;
-- 
2.43.0


From 14458eb6480c627fd21bc85e6cfcd7dcabfe77e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 59/89] fix: drain-input reads the given port, read-line adds
 no newline at the end

---
 mes/module/mes/guile.mes | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mes/module/mes/guile.mes b/mes/module/mes/guile.mes
index 42ac445..f6a6868 100644
--- a/mes/module/mes/guile.mes
+++ b/mes/module/mes/guile.mes
@@ -34,7 +34,7 @@
 
 (define %load-path (or (and=> (getenv "GUILE_LOAD_PATH") (lambda (x) (string-split x #\:))) '()))
 
-(define (drain-input port) (read-string))
+(define (drain-input port) (read-string port))
 
 (define (read-line . rest)
   (let* ((port (if (pair? rest) (car rest) (current-input-port)))
@@ -45,7 +45,7 @@
          (let loop ((c c))
            (if (or (eof-object? c) (eq? c #\newline)) (case handle-delim
                                                         ((trim) '())
-                                                        ((concat) '(#\newline))
+                                                        ((concat) (if (eof-object? c) '() '(#\newline)))
                                                         (else (error (format #f "not supported: handle-delim=~a" handle-delim))))
                (cons c (loop (read-char port)))))))))
 
-- 
2.43.0


From 45991fb73cf8dddbc81306013620b540a73267ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 60/89] fix: printf fields: precision, sign, padding, unsigned
 octal, counts and termination

---
 lib/stdio/vfprintf.c  | 116 ++++++++++++++++++--------------
 lib/stdio/vsnprintf.c | 150 +++++++++++++++++++++++-------------------
 2 files changed, 147 insertions(+), 119 deletions(-)

diff --git a/lib/stdio/vfprintf.c b/lib/stdio/vfprintf.c
index 0b2c30a..854d643 100644
--- a/lib/stdio/vfprintf.c
+++ b/lib/stdio/vfprintf.c
@@ -51,12 +51,12 @@ vfprintf (FILE * f, char const *format, va_list ap)
         if (c == ' ')
           {
             pad = c;
-            c = *p++;
+            c = *++p;
           }
         if (c == '0')
           {
             pad = c;
-            c = *p++;
+            c = *++p;
           }
         if (c >= '0' && c <= '9')
           {
@@ -65,7 +65,12 @@ vfprintf (FILE * f, char const *format, va_list ap)
           }
         else if (c == '*')
           {
-            width = va_arg (ap, int);
+            width = va_arg (ap, long);
+            if (width < 0)
+              {
+                left_p = 1;
+                width = -width;
+              }
             c = *++p;
           }
         if (c == '.')
@@ -78,12 +83,18 @@ vfprintf (FILE * f, char const *format, va_list ap)
               }
             else if (c == '*')
               {
-                precision = va_arg (ap, int);
+                precision = va_arg (ap, long);
+                if (precision < 0)
+                  precision = -1;
                 c = *++p;
               }
+            else
+              precision = 0;
           }
         if (c == 'l')
           c = *++p;
+        if (c == 'l')
+          c = *++p;
         if (c == 'l')
           {
             eputs ("vfprintf: skipping second: l\n");
@@ -101,7 +112,19 @@ vfprintf (FILE * f, char const *format, va_list ap)
             {
               char _c;
               _c = va_arg (ap, long);
+              if (!left_p)
+                while (width-- > 1)
+                  {
+                    fputc (' ', f);
+                    count++;
+                  }
               fputc (_c, f);
+              count++;
+              while (width-- > 1)
+                {
+                  fputc (' ', f);
+                  count++;
+                }
               break;
             }
           case 'd':
@@ -113,39 +136,42 @@ vfprintf (FILE * f, char const *format, va_list ap)
             {
               long d = va_arg (ap, long);
               int base = c == 'o' ? 8 : c == 'x' || c == 'X' ? 16 : 10;
-              char *s = ntoab (d, base, c != 'u' && c != 'x' && c != 'X');
+              char *s = ntoab (d, base, c == 'd' || c == 'i');
               if (c == 'X')
                 strupr (s);
-              int length = strlen (s);
-              if (precision == -1)
+              int sign_p = *s == '-';
+              int length = strlen (s) - sign_p;
+              if (precision == 0 && d == 0)
+                length = 0;
+              if (precision == -1 && pad == '0' && !left_p)
+                precision = width - sign_p;
+              if (precision < length)
                 precision = length;
+              width = width - precision - sign_p;
               if (!left_p)
+                while (width-- > 0)
+                  {
+                    fputc (' ', f);
+                    count++;
+                  }
+              if (sign_p)
                 {
-                  while (width-- > precision)
-                    {
-                      fputc (pad, f);
-                      count++;
-                    }
-                  while (precision > length)
-                    {
-                      fputc ('0', f);
-                      precision--;
-                      width--;
-                      count++;
-                    }
+                  fputc (*s++, f);
+                  count++;
                 }
-              while (*s)
+              while (precision-- > length)
+                {
+                  fputc ('0', f);
+                  count++;
+                }
+              while (length-- > 0)
                 {
-                  if (precision-- <= 0)
-                    break;
-                  width--;
                   fputc (*s++, f);
                   count++;
                 }
-              while (width > 0)
+              while (width-- > 0)
                 {
-                  width--;
-                  fputc (pad, f);
+                  fputc (' ', f);
                   count++;
                 }
               break;
@@ -153,36 +179,24 @@ vfprintf (FILE * f, char const *format, va_list ap)
           case 's':
             {
               char *s = va_arg (ap, char *);
-              int length = strlen (s);
-              if (precision == -1)
-                precision = length;
+              int length = 0;
+              while (s && length != precision && s[length])
+                length++;
+              width = width - length;
               if (!left_p)
+                while (width-- > 0)
+                  {
+                    fputc (' ', f);
+                    count++;
+                  }
+              while (length-- > 0)
                 {
-                  while (width-- > precision)
-                    {
-                      fputc (pad, f);
-                      count++;
-                    }
-                  while (precision > length)
-                    {
-                      fputc (' ', f);
-                      precision--;
-                      width--;
-                      count++;
-                    }
-                }
-              while (*s)
-                {
-                  if (precision-- <= 0)
-                    break;
-                  width--;
                   fputc (*s++, f);
                   count++;
                 }
-              while (width > 0)
+              while (width-- > 0)
                 {
-                  width--;
-                  fputc (pad, f);
+                  fputc (' ', f);
                   count++;
                 }
               break;
@@ -248,5 +262,5 @@ vfprintf (FILE * f, char const *format, va_list ap)
         p++;
       }
   va_end (ap);
-  return 0;
+  return count;
 }
diff --git a/lib/stdio/vsnprintf.c b/lib/stdio/vsnprintf.c
index 9a8d796..9efb692 100644
--- a/lib/stdio/vsnprintf.c
+++ b/lib/stdio/vsnprintf.c
@@ -33,7 +33,7 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
     if (*p != '%')
       {
         c = *p++;
-        if (count < size)
+        if (count + 1 < size)
           *str++ = c;
         count++;
       }
@@ -53,12 +53,12 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
         if (c == ' ')
           {
             pad = c;
-            c = *p++;
+            c = *++p;
           }
         if (c == '0')
           {
             pad = c;
-            c = *p++;
+            c = *++p;
           }
         if (c >= '0' && c <= '9')
           {
@@ -68,6 +68,11 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
         else if (c == '*')
           {
             width = va_arg (ap, long);
+            if (width < 0)
+              {
+                left_p = 1;
+                width = -width;
+              }
             c = *++p;
           }
         if (c == '.')
@@ -81,8 +86,12 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
             else if (c == '*')
               {
                 precision = va_arg (ap, long);
+                if (precision < 0)
+                  precision = -1;
                 c = *++p;
               }
+            else
+              precision = 0;
           }
         if (c == 'l')
           c = *++p;
@@ -97,7 +106,7 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
           {
           case '%':
             {
-              if (count < size)
+              if (count + 1 < size)
                 *str++ = *p;
               count++;
               break;
@@ -105,9 +114,22 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
           case 'c':
             {
               c = va_arg (ap, long);
-              if (count < size)
+              if (!left_p)
+                while (width-- > 1)
+                  {
+                    if (count + 1 < size)
+                      *str++ = ' ';
+                    count++;
+                  }
+              if (count + 1 < size)
                 *str++ = c;
               count++;
+              while (width-- > 1)
+                {
+                  if (count + 1 < size)
+                    *str++ = ' ';
+                  count++;
+                }
               break;
             }
           case 'd':
@@ -119,44 +141,49 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
             {
               long d = va_arg (ap, long);
               int base = c == 'o' ? 8 : c == 'x' || c == 'X' ? 16 : 10;
-              char *s = ntoab (d, base, c != 'u' && c != 'x' && c != 'X');
+              char *s = ntoab (d, base, c == 'd' || c == 'i');
               if (c == 'X')
                 strupr (s);
-              int length = strlen (s);
-              if (precision == -1)
+              int sign_p = *s == '-';
+              int length = strlen (s) - sign_p;
+              if (precision == 0 && d == 0)
+                length = 0;
+              if (precision == -1 && pad == '0' && !left_p)
+                precision = width - sign_p;
+              if (precision < length)
                 precision = length;
+              width = width - precision - sign_p;
               if (!left_p)
+                while (width-- > 0)
+                  {
+                    if (count + 1 < size)
+                      *str++ = ' ';
+                    count++;
+                  }
+              if (sign_p)
                 {
-                  while (width-- > precision)
-                    {
-                      if (count < size)
-                        *str++ = pad;
-                      count++;
-                    }
-                  while (precision > length)
-                    {
-                      if (count < size)
-                        *str++ = '0';
-                      precision--;
-                      width--;
-                      count++;
-                    }
+                  if (count + 1 < size)
+                    *str++ = *s;
+                  s++;
+                  count++;
                 }
-              while (*s)
+              while (precision-- > length)
                 {
-                  if (precision-- <= 0)
-                    break;
-                  width--;
-                  c = *s++;
-                  if (count < size)
-                    *str++ = c;
+                  if (count + 1 < size)
+                    *str++ = '0';
                   count++;
                 }
-              while (width > 0)
+              while (length-- > 0)
                 {
-                  width--;
-                  if (count < size)
-                    *str++ = pad;
+                  if (count + 1 < size)
+                    *str++ = *s;
+                  s++;
+                  count++;
+                }
+              while (width-- > 0)
+                {
+                  if (count + 1 < size)
+                    *str++ = ' ';
                   count++;
                 }
               break;
@@ -164,41 +191,28 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
           case 's':
             {
               char *s = va_arg (ap, char *);
-              int length = s ? strlen (s) : 0;
-              if (precision == -1)
-                precision = length;
+              int length = 0;
+              while (s && length != precision && s[length])
+                length++;
+              width = width - length;
               if (!left_p)
+                while (width-- > 0)
+                  {
+                    if (count + 1 < size)
+                      *str++ = ' ';
+                    count++;
+                  }
+              while (length-- > 0)
                 {
-                  while (width-- > precision)
-                    {
-                      if (count < size)
-                        *str++ = pad;
-                      count++;
-                    }
-                  while (width > length)
-                    {
-                      if (count < size)
-                        *str++ = ' ';
-                      precision--;
-                      width--;
-                      count++;
-                    }
-                }
-              while (s && *s)
-                {
-                  if (precision-- <= 0)
-                    break;
-                  width--;
-                  c = *s++;
-                  if (count < size)
-                    *str++ = c;
+                  if (count + 1 < size)
+                    *str++ = *s;
+                  s++;
                   count++;
                 }
-              while (width > 0)
+              while (width-- > 0)
                 {
-                  width--;
-                  if (count < size)
-                    *str++ = pad;
+                  if (count + 1 < size)
+                    *str++ = ' ';
                   count++;
                 }
               break;
@@ -220,13 +234,13 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
                 {
                   while (width-- > precision)
                     {
-                      if (count < size)
+                      if (count + 1 < size)
                         *str++ = pad;
                       count++;
                     }
                   while (precision > length)
                     {
-                      if (count < size)
+                      if (count + 1 < size)
                         *str++ = ' ';
                       precision--;
                       width--;
@@ -239,14 +253,14 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
                     break;
                   width--;
                   c = *s++;
-                  if (count < size)
+                  if (count + 1 < size)
                     *str++ = c;
                   count++;
                 }
               while (width > 0)
                 {
                   width--;
-                  if (count < size)
+                  if (count + 1 < size)
                     *str++ = pad;
                   count++;
                 }
@@ -269,7 +283,7 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
         p++;
       }
   va_end (ap);
-  if (count < size)
+  if (size > 0)
     *str = 0;
   return count;
 }
-- 
2.43.0


From 5f401ddaff1f4853c43cfba6829bd269291e1bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 61/89] fix: buffered input: short reads, errors, pushed-back
 characters

---
 lib/mes/__buffered_read.c |  9 ++++++++-
 lib/stdio/fread.c         | 22 ++++++++++++----------
 lib/stdio/fseek.c         |  4 ++++
 lib/stdio/ftell.c         |  7 ++++++-
 4 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/lib/mes/__buffered_read.c b/lib/mes/__buffered_read.c
index bac1f30..96413d7 100644
--- a/lib/mes/__buffered_read.c
+++ b/lib/mes/__buffered_read.c
@@ -86,7 +86,12 @@ __buffered_read (int filedes, void *buffer, size_t size)
     {
 #if !__MESC__
       if (todo > __read_buffer_max)
-        return size - todo + _read (filedes, p, todo);
+        {
+          ssize_t r = _read (filedes, p, todo);
+          if (r < 0 && todo < size)
+            r = 0;
+          return size - todo + r;
+        }
       if (__mes_debug () > 4)
         {
           eputs ("__buffered_read: ");
@@ -95,6 +100,8 @@ __buffered_read (int filedes, void *buffer, size_t size)
         }
 #endif
       ssize_t bytes = _read (filedes, cache->string, __read_buffer_max);
+      if (bytes < 0 && todo < size)
+        return size - todo;
       if (bytes < 0)
         return -1;
       if (bytes)
diff --git a/lib/stdio/fread.c b/lib/stdio/fread.c
index 505700c..4e173bf 100644
--- a/lib/stdio/fread.c
+++ b/lib/stdio/fread.c
@@ -38,17 +38,19 @@ fread (void *data, size_t size, size_t count, FILE * stream)
   size_t todo = size * count;
   char *buf = (char *) data;
 
-  int bytes = 0;
-  while (__fungetc_p (stream) && todo-- && ++bytes)
-    *buf++ = fgetc (stream);
+  size_t bytes = 0;
+  if (__fungetc_p (stream))
+    {
+      buf[0] = fgetc (stream);
+      bytes = 1;
+    }
   int filedes = (long) stream;
-  if (todo)
+  ssize_t r = 1;
+  while (bytes < todo && r > 0)
     {
-      int r = read (filedes, buf, todo);
-      if (r < 0 && !bytes)
-        bytes = r;
-      else
-        bytes += r;
+      r = read (filedes, buf + bytes, todo - bytes);
+      if (r > 0)
+        bytes = bytes + r;
     }
 
   if (__mes_debug ())
@@ -62,7 +64,7 @@ fread (void *data, size_t size, size_t count, FILE * stream)
       if (bytes > 0 && bytes < sizeof (debug_buf))
         {
           strncpy (debug_buf, data, bytes);
-          buf[bytes] = 0;
+          debug_buf[bytes] = 0;
           eputs ("fread buf=");
           eputs (debug_buf);
           eputs ("\n");
diff --git a/lib/stdio/fseek.c b/lib/stdio/fseek.c
index ce468ab..124d744 100644
--- a/lib/stdio/fseek.c
+++ b/lib/stdio/fseek.c
@@ -26,7 +26,11 @@ int
 fseek (FILE * stream, long offset, int whence)
 {
   int filedes = (long) stream;
+  if (__ungetc_p (filedes) && whence == SEEK_CUR)
+    offset = offset - 1;
   off_t pos = lseek (filedes, offset, whence);
+  if (pos >= 0)
+    __ungetc_clear (filedes);
   if (__mes_debug ())
     {
       eputs ("fread fd=");
diff --git a/lib/stdio/ftell.c b/lib/stdio/ftell.c
index aa8ddd3..0cdfc52 100644
--- a/lib/stdio/ftell.c
+++ b/lib/stdio/ftell.c
@@ -18,6 +18,7 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <mes/lib.h>
 #include <fcntl.h>
 #include <stdio.h>
 #include <unistd.h>
@@ -25,5 +26,9 @@
 long
 ftell (FILE * stream)
 {
-  return lseek ((int) (long) stream, 0, SEEK_CUR);
+  int filedes = (long) stream;
+  off_t pos = lseek (filedes, 0, SEEK_CUR);
+  if (pos > 0 && __ungetc_p (filedes))
+    pos = pos - 1;
+  return pos;
 }
-- 
2.43.0


From f253a8d2655506756b63a52639237f8c788a6d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 62/89] fix: a refused lseek keeps the buffered input, dup2
 drops it

---
 lib/linux/dup2.c  | 9 ++++++++-
 lib/linux/lseek.c | 6 ++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/linux/dup2.c b/lib/linux/dup2.c
index ef99627..5c75c34 100644
--- a/lib/linux/dup2.c
+++ b/lib/linux/dup2.c
@@ -20,11 +20,18 @@
 
 #include <linux/syscall.h>
 #include <syscall.h>
+#include <mes/lib.h>
 
 int
 dup2 (int old, int new)
 {
   long long_old = old;
   long long_new = new;
-  return _sys_call2 (SYS_dup2, long_old, long_new);
+  int r = _sys_call2 (SYS_dup2, long_old, long_new);
+  if (r >= 0 && old != new)
+    {
+      __ungetc_clear (new);
+      __buffered_read_clear (new);
+    }
+  return r;
 }
diff --git a/lib/linux/lseek.c b/lib/linux/lseek.c
index f71af59..892a557 100644
--- a/lib/linux/lseek.c
+++ b/lib/linux/lseek.c
@@ -40,7 +40,13 @@ lseek (int filedes, off_t offset, int whence)
     return -1;
 #endif
   size_t skip = __buffered_read_clear (filedes);
+#if !__MESC__
+  /* Go to where the reader is: the seek may fail. */
+  if (skip)
+    _lseek (filedes, -skip, SEEK_CUR);
+#else
   if (whence == SEEK_CUR)
     offset -= skip;
+#endif
   return _sys_call3 (SYS_lseek, (int) filedes, (long) offset, (int) whence);
 }
-- 
2.43.0


From e757d50baf68453d2f8acae6c86b4858ea19e628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 63/89] fix: fopen modes

---
 lib/stdio/fopen.c | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/lib/stdio/fopen.c b/lib/stdio/fopen.c
index 3164c11..7d4492e 100644
--- a/lib/stdio/fopen.c
+++ b/lib/stdio/fopen.c
@@ -40,21 +40,16 @@ fopen (char const *file_name, char const *opentype)
 
   int fd;
   int mode = 0600;
-  if ((opentype[0] == 'a' || !strcmp (opentype, "r+")) && !access (file_name, O_RDONLY))
-    {
-      int flags = O_RDWR;
-      if (opentype[0] == 'a')
-        flags |= O_APPEND;
-      fd = _open3 (file_name, flags, mode);
-    }
-  else if (opentype[0] == 'w' || opentype[0] == 'a' || !strcmp (opentype, "r+"))
-    {
-      char *plus_p = strchr (opentype, '+');
-      int flags = plus_p ? O_RDWR | O_CREAT : O_WRONLY | O_CREAT | O_TRUNC;
-      fd = _open3 (file_name, flags, mode);
-    }
-  else
-    fd = _open3 (file_name, O_RDONLY, 0);
+  int flags = O_RDONLY;
+  if (strchr (opentype, '+'))
+    flags = O_RDWR;
+  else if (opentype[0] == 'w' || opentype[0] == 'a')
+    flags = O_WRONLY;
+  if (opentype[0] == 'w')
+    flags = flags | O_CREAT | O_TRUNC;
+  else if (opentype[0] == 'a')
+    flags = flags | O_CREAT | O_APPEND;
+  fd = _open3 (file_name, flags, mode);
 
   if (__mes_debug ())
     {
-- 
2.43.0


From 109ea6b297d2c5203e0759372b52b841b7ac0f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 64/89] fix: single character and string output report errors

---
 lib/mes/eputs.c     | 3 ++-
 lib/mes/fdputc.c    | 5 +++--
 lib/mes/fdputs.c    | 3 ++-
 lib/mes/oputs.c     | 3 ++-
 lib/stdio/putchar.c | 4 +---
 lib/stdlib/puts.c   | 3 ++-
 6 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/lib/mes/eputs.c b/lib/mes/eputs.c
index 26bb3e0..954bcba 100644
--- a/lib/mes/eputs.c
+++ b/lib/mes/eputs.c
@@ -25,6 +25,7 @@ int
 eputs (char const *s)
 {
   int i = strlen (s);
-  write (__stderr, s, i);
+  if (write (__stderr, s, i) != i)
+    return -1;
   return 0;
 }
diff --git a/lib/mes/fdputc.c b/lib/mes/fdputc.c
index 87c1b80..547e976 100644
--- a/lib/mes/fdputc.c
+++ b/lib/mes/fdputc.c
@@ -24,6 +24,7 @@ int
 fdputc (int c, int fd)
 {
   char *p = cast_intp_to_charp (&c);
-  write (fd, p, 1);
-  return 0;
+  if (write (fd, p, 1) != 1)
+    return -1;
+  return c & 0xff;
 }
diff --git a/lib/mes/fdputs.c b/lib/mes/fdputs.c
index 7c6d4ab..faa1efd 100644
--- a/lib/mes/fdputs.c
+++ b/lib/mes/fdputs.c
@@ -25,6 +25,7 @@ int
 fdputs (char const *s, int fd)
 {
   int i = strlen (s);
-  write (fd, s, i);
+  if (write (fd, s, i) != i)
+    return -1;
   return 0;
 }
diff --git a/lib/mes/oputs.c b/lib/mes/oputs.c
index cc00528..36a8f3e 100644
--- a/lib/mes/oputs.c
+++ b/lib/mes/oputs.c
@@ -25,6 +25,7 @@ int
 oputs (char const *s)
 {
   int i = strlen (s);
-  write (__stdout, s, i);
+  if (write (__stdout, s, i) != i)
+    return -1;
   return 0;
 }
diff --git a/lib/stdio/putchar.c b/lib/stdio/putchar.c
index 2ca347f..1c9a414 100644
--- a/lib/stdio/putchar.c
+++ b/lib/stdio/putchar.c
@@ -24,7 +24,5 @@
 int
 putchar (int c)
 {
-  char *p = cast_intp_to_charp (&c);
-  write (__stdout, p, 1);
-  return 0;
+  return fdputc (c, __stdout);
 }
diff --git a/lib/stdlib/puts.c b/lib/stdlib/puts.c
index fea5dff..cf32717 100644
--- a/lib/stdlib/puts.c
+++ b/lib/stdlib/puts.c
@@ -23,6 +23,7 @@
 int
 puts (char const *s)
 {
-  oputs (s);
+  if (oputs (s) == -1)
+    return -1;
   return oputs ("\n");
 }
-- 
2.43.0


From 459f120f9de39d7f5ef63135de3df3a4bc265dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 65/89] fix: layout of struct stat on x86_64

---
 include/sys/stat.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sys/stat.h b/include/sys/stat.h
index 0aefa28..f77e2cd 100644
--- a/include/sys/stat.h
+++ b/include/sys/stat.h
@@ -63,10 +63,11 @@ struct stat
 {
   unsigned long  st_dev;
   unsigned long  st_ino;
+  unsigned long  st_nlink;
   unsigned int   st_mode;
-  unsigned int   st_nlink;
   unsigned int   st_uid;
   unsigned int   st_gid;
+  unsigned int   __pad0;
   unsigned long  st_rdev;
   long           st_size;
   unsigned long  st_blksize;
@@ -79,6 +80,7 @@ struct stat
   unsigned long  st_ctime_usec;
   unsigned long  __foo0;
   unsigned long  __foo1;
+  unsigned long  __foo2;
 };
 #endif
 // *INDENT-ON*
-- 
2.43.0


From 0d68f2bd5bea17d572914e2845ae11a641e09693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 66/89] fix: sleep on x86_64, remaining time

---
 include/linux/x86_64/syscall.h | 2 +-
 lib/posix/sleep.c              | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/linux/x86_64/syscall.h b/include/linux/x86_64/syscall.h
index 36ef06b..734b250 100644
--- a/include/linux/x86_64/syscall.h
+++ b/include/linux/x86_64/syscall.h
@@ -66,7 +66,7 @@
 #define SYS_lstat     0x06
 #define SYS_setitimer 0x26
 #define SYS_fstat     0x05
-#define SYS_nanosleep 0x33
+#define SYS_nanosleep 0x23
 #define SYS_getdents  0x4e
 #define SYS_clock_gettime 0xe4
 
diff --git a/lib/posix/sleep.c b/lib/posix/sleep.c
index 9fafdd8..416237d 100644
--- a/lib/posix/sleep.c
+++ b/lib/posix/sleep.c
@@ -29,5 +29,8 @@ sleep (unsigned int seconds)
   struct timespec remaining;
   requested_time.tv_sec = seconds;
   requested_time.tv_nsec = 0;
-  return nanosleep (&requested_time, &remaining);
+  remaining.tv_sec = 0;
+  if (nanosleep (&requested_time, &remaining) < 0)
+    return remaining.tv_sec;
+  return 0;
 }
-- 
2.43.0


From 45c9b4241632b72a8ed7e92273e30f66a6ac2fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 67/89] fix: signal and sigprogmask on x86_64

---
 lib/linux/signal.c      | 14 ++++++++++++--
 lib/linux/sigprogmask.c |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/linux/signal.c b/lib/linux/signal.c
index 11174be..cbea3e2 100644
--- a/lib/linux/signal.c
+++ b/lib/linux/signal.c
@@ -24,6 +24,13 @@
 #include <signal.h>
 
 #if __i386__
+#elif __x86_64__ && __GNUC__
+/* Called with the stack as the kernel left it: no C function. */
+void _restorer_for_siginfo (void);
+asm (".text\n"
+     "_restorer_for_siginfo:\n\t"
+     "mov     $0x0f,%rax\n\t"
+     "syscall \n\t");
 #else
 void
 _restorer_for_siginfo (void)
@@ -44,7 +51,7 @@ signal (int signum, sighandler_t action)
   unsigned short itembitcount;
 
   setup_action.sa_handler = action;
-  /* The sa_restorer is not used.  Reason:
+  /* The sa_restorer is not used, except by gcc for x86_64.  Reason:
      * The kernel uses its own restorer anyway by pretending we gave one on
      our side (no, really).
      glibc still has a custom restorer because they want to be able to
@@ -63,10 +70,13 @@ signal (int signum, sighandler_t action)
 #if __x86_64__
   /* Tell kernel that we use a restorer, on penalty of segfault.  */
   setup_action.sa_flags |= SA_RESTORER;
+#if __GNUC__
+  setup_action._foo0 = (long) _restorer_for_siginfo;
+#endif
 #endif
   int r = _sys_call4 (SYS_rt_sigaction, signum, (long) &setup_action, (long) &old, sizeof (sigset_t));
   if (r)
-    return 0;
+    return SIG_ERR;
   return old.sa_handler;
 #endif
 }
diff --git a/lib/linux/sigprogmask.c b/lib/linux/sigprogmask.c
index c0326a2..10936de 100644
--- a/lib/linux/sigprogmask.c
+++ b/lib/linux/sigprogmask.c
@@ -29,6 +29,6 @@ sigprocmask (int how, sigset_t const *set, sigset_t * oldset)
 #if __i386__
   return _sys_call3 (SYS_sigprocmask, (long) how, (long) set, (long) oldset);
 #else
-  return _sys_call3 (SYS_rt_sigprocmask, (long) how, (long) set, (long) oldset);
+  return _sys_call4 (SYS_rt_sigprocmask, (long) how, (long) set, (long) oldset, sizeof (sigset_t));
 #endif
 }
-- 
2.43.0


From 0e873a37d8a03a5435b1e78afc1c523749646cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 68/89] fix: raise and atexit return a value

---
 lib/posix/raise.c   | 2 +-
 lib/stdlib/atexit.c | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/posix/raise.c b/lib/posix/raise.c
index f693719..701be6a 100644
--- a/lib/posix/raise.c
+++ b/lib/posix/raise.c
@@ -24,5 +24,5 @@
 int
 raise (int signum)
 {
-  kill (getpid (), signum);
+  return kill (getpid (), signum);
 }
diff --git a/lib/stdlib/atexit.c b/lib/stdlib/atexit.c
index 218ae85..1e99a1b 100644
--- a/lib/stdlib/atexit.c
+++ b/lib/stdlib/atexit.c
@@ -25,4 +25,5 @@ int
 atexit (void (*function) (void))
 {
   __call_at_exit = function;
+  return 0;
 }
-- 
2.43.0


From 6ed4524404df6e7666b9a4a76a907733aee84b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 69/89] fix: MesCC, x86_64: 64-bit constants

---
 lib/x86_64-mes/x86_64.M1   |  2 ++
 module/mescc/M1.scm        |  9 +++++++--
 module/mescc/x86_64/as.scm | 10 +++++-----
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/lib/x86_64-mes/x86_64.M1 b/lib/x86_64-mes/x86_64.M1
index 9ffbbf1..255f76f 100644
--- a/lib/x86_64-mes/x86_64.M1
+++ b/lib/x86_64-mes/x86_64.M1
@@ -46,6 +46,7 @@ DEFINE addl___$i8,(%rax) 8300
 DEFINE addl___$i8,(%rdi) 8307
 DEFINE addw___$i8,(%rax) 668100
 DEFINE addw___$i8,(%rdi) 668107
+DEFINE and____$i32,%rax 4825
 DEFINE and____$i32,%rdi 4881e7
 DEFINE and____%r15,%rax 4c21f8
 DEFINE and____%r15,%rdi 4c21ff
@@ -54,6 +55,7 @@ DEFINE call32 e8
 DEFINE call___*%rax ffd0
 DEFINE call___*%rdi ffd7
 DEFINE cmp____$i32,%rax 483d
+DEFINE cmp____$i32,%rdi 4881ff
 DEFINE cmp____$i8,%rax 4883f8
 DEFINE cmp____$i8,%rdi 4883ff
 DEFINE cmp____%r15,%rax 4c39f8
diff --git a/module/mescc/M1.scm b/module/mescc/M1.scm
index 790ef88..682353a 100644
--- a/module/mescc/M1.scm
+++ b/module/mescc/M1.scm
@@ -90,13 +90,18 @@
 
 (define mesc? (string=? %compiler "mesc"))
 
+(define (negative-high o)
+  "The upper 32 bits of the negative number O, as a negative number."
+  (if mesc? -1
+      (- (quotient (1+ o) #x100000000) 1)))
+
 (define (hex2:immediate8 o)
   ;; FIXME: #x100000000 => 0 divide-by-zero when compiled with 64 bit mesc
   (if hex? (string-append "%0x" (dec->hex (if mesc? 0 (modulo o #x100000000)))
-                          " %0x" (if (< o 0) "-1"
+                          " %0x" (if (< o 0) (dec->hex (negative-high o))
                                      (dec->hex (if mesc? o (quotient o #x100000000)))))
       (string-append "%" (number->string (dec->hex (if mesc? 0 (modulo o #x100000000))))
-                     " %" (if (< o 0) "-1"
+                     " %" (if (< o 0) (number->string (dec->hex (negative-high o)))
                               (number->string (dec->hex (if mesc? o (quotient o #x100000000))))))))
 
 (define* (display-join o #:optional (sep ""))
diff --git a/module/mescc/x86_64/as.scm b/module/mescc/x86_64/as.scm
index 7e438c6..3054e15 100644
--- a/module/mescc/x86_64/as.scm
+++ b/module/mescc/x86_64/as.scm
@@ -82,7 +82,7 @@
   (or v (error "invalid value: x86_64:value->r: " v))
   (let ((r (get-r info)))
     (if (and (>= v 0)
-             (< v #xffffffff))
+             (< v #x80000000)) ;; 32 bit immediates are sign-extended
      `((,(string-append "mov____$i32,%" r) (#:immediate ,v)))
      `((,(string-append "mov____$i64,%" r) (#:immediate8 ,v))))))
 
@@ -520,11 +520,11 @@
     (cond ((< (abs v) #x80)
            `((,(string-append "cmp____$i8,%" r) (#:immediate1 ,v))))
           ((and (>= v 0)
-                (< v #xffffffff))
+                (< v #x80000000))
            `((,(string-append "cmp____$i32,%" r) (#:immediate ,v))))
           (else
-           `(,(string-append "mov____$i64,%r15") (#:immediate8 ,v)
-             ,(string-append "cmp____%r15,%" r))))))
+           `((,(string-append "mov____$i64,%r15") (#:immediate8 ,v))
+             (,(string-append "cmp____%r15,%" r)))))))
 
 (define (x86_64:push-register info r)
   `((,(string-append "push___%" r))))
@@ -638,7 +638,7 @@
 (define (x86_64:r-and info v)
   (let ((r (get-r info)))
     (if (and (>= v 0)
-             (< v #xffffffff))
+             (< v #x80000000))
         `((,(string-append "and____$i32,%" r) (#:immediate ,v)))
         `((,(string-append "mov____$i64,%r15") (#:immediate8 ,v))
           (,(string-append "and____%r15,%" r))))))
-- 
2.43.0


From 93764609fb1a2459e5da062218d94bcfaa87f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:32 +0000
Subject: [PATCH 70/89] fix: MesCC, x86_64: 64-bit additions to memory

---
 lib/x86_64-mes/x86_64.M1 | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/x86_64-mes/x86_64.M1 b/lib/x86_64-mes/x86_64.M1
index 255f76f..860a3ae 100644
--- a/lib/x86_64-mes/x86_64.M1
+++ b/lib/x86_64-mes/x86_64.M1
@@ -24,14 +24,16 @@
 DEFINE add____$i32,%rax 4805
 DEFINE add____$i32,%rbp 4881c5
 DEFINE add____$i32,%rdi 4881c7
-DEFINE add____$i32,(%rax) 8100
-DEFINE add____$i32,0x32(%rbp) 8185
+DEFINE add____$i32,(%rax) 488100
+DEFINE add____$i32,0x32(%rbp) 488185
 DEFINE add____$i8,%rax 4883c0
 DEFINE add____$i8,%rdi 4883c7
 DEFINE add____$i8,%rsp 4883c4
-DEFINE add____$i8,(%rax) 8300
-DEFINE add____$i8,(%rdi) 8307
-DEFINE add____$i8,0x8(%rbp) 8345
+DEFINE add____$i8,(%rax) 488300
+DEFINE add____$i8,(%rdi) 488307
+DEFINE add____$i8,0x8(%rbp) 488345
+DEFINE add____%r15,%rax 4c01f8
+DEFINE add____%r15,%rdi 4c01ff
 DEFINE add____%r15,(%rax) 4c0138
 DEFINE add____%r15,(%rdi) 4c013f
 DEFINE add____%rax,%rax 4801c0
@@ -102,6 +104,8 @@ DEFINE mov____%edi,0x32(%rbp) 89bd
 DEFINE mov____%edi,0x8(%rbp) 897d
 DEFINE mov____%esi,%eax 89f0
 DEFINE mov____%esi,(%rdi) 8937
+DEFINE mov____%si,(%rdi) 668937
+DEFINE mov____%sil,(%rdi) 408837
 DEFINE mov____%r8,%rdi 4c89c7
 DEFINE mov____%rax,%rax 4889c0
 DEFINE mov____%rax,%rdi 4889c7
@@ -127,6 +131,8 @@ DEFINE mov____%rsi,(%rdi) 488937
 DEFINE mov____%rsp,%rbp 4889e5
 DEFINE mov____(%rax),%eax 8b00
 DEFINE mov____(%rax),%esi 8b30
+DEFINE mov____(%rax),%si 668b30
+DEFINE mov____(%rax),%sil 408a30
 DEFINE mov____(%rax),%rax 488b00
 DEFINE mov____(%rax),%rsi 488b30
 DEFINE mov____(%rdi),%edi 8b3f
@@ -152,6 +158,8 @@ DEFINE mov____0x8(%rdi),%rsp 488b67
 DEFINE movl___%eax,0x32 890425
 DEFINE movl___%edi,0x32 893c25
 DEFINE movl___%esi,(%rdi) 8937
+DEFINE movb___%al,0x32 880425
+DEFINE movb___%dil,0x32 40883c25
 DEFINE movl___(%rax),%esi 8b30
 DEFINE movsbq_%al,%rax 480fbec0
 DEFINE movsbq_%dil,%rdi 480fbeff
-- 
2.43.0


From 0886194db6428044e351155f75a56cd7e4234c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:48 +0000
Subject: [PATCH 71/89] fix: MesCC: keep the accumulator in xor-zf

---
 module/mescc/armv4/as.scm  |  7 ++++---
 module/mescc/i386/as.scm   | 10 +++++++---
 module/mescc/x86_64/as.scm | 10 +++++++---
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/module/mescc/armv4/as.scm b/module/mescc/armv4/as.scm
index e30338d..ff93906 100644
--- a/module/mescc/armv4/as.scm
+++ b/module/mescc/armv4/as.scm
@@ -126,9 +126,10 @@
   (armv4:zf->r info))
 
 (define (armv4:xor-zf info)
-  '(((#:immediate1 #x00) "mov____$i8,%r0")
-    ((#:immediate1 #x01) "moveq__%r0,$i8")
-    ((#:immediate1 #x00) "cmp____$i8,%r0")))
+  (let ((r (get-r info)))
+    `(((#:immediate1 #x00) ,(string-append "mov____$i8,%" r))
+      ((#:immediate1 #x01) ,(string-append "moveq__%" r ",$i8"))
+      ((#:immediate1 #x00) ,(string-append "cmp____$i8,%" r)))))
 
 (define (armv4:r->local+n info id n)
   (let ((n (+ (- 0 (* 4 id)) n))
diff --git a/module/mescc/i386/as.scm b/module/mescc/i386/as.scm
index 0b786e5..a9c67d3 100644
--- a/module/mescc/i386/as.scm
+++ b/module/mescc/i386/as.scm
@@ -103,9 +103,13 @@
       (,(string-append "movzbl_%" l ",%" r)))))
 
 (define (i386:xor-zf info)
-  '(("lahf")
-    ("xor____$i8,%ah" (#:immediate1 #x40))
-    ("sahf")))
+  (let ((invert '(("lahf")
+                  ("xor____$i8,%ah" (#:immediate1 #x40))
+                  ("sahf"))))
+    (if (equal? (get-r info) "eax") invert
+        `(("push___%eax")
+          ,@invert
+          ("pop____%eax")))))
 
 (define (i386:r->local+n info id n)
   (let ((n (+ (- 0 (* 4 id)) n))
diff --git a/module/mescc/x86_64/as.scm b/module/mescc/x86_64/as.scm
index 3054e15..a7f0440 100644
--- a/module/mescc/x86_64/as.scm
+++ b/module/mescc/x86_64/as.scm
@@ -164,9 +164,13 @@
       (,(string-append "movzbq_%" l ",%" r)))))
 
 (define (x86_64:xor-zf info)
-  '(("lahf")
-    ("xor____$i8,%ah" (#:immediate1 #x40))
-    ("sahf")))
+  (let ((invert '(("lahf")
+                  ("xor____$i8,%ah" (#:immediate1 #x40))
+                  ("sahf"))))
+    (if (equal? (get-r info) "rax") invert
+        `(("push___%rax")
+          ,@invert
+          ("pop____%rax")))))
 
 (define (x86_64:r->local+n info id n)
   (let ((n (+ (- 0 (* 8 id)) n))
-- 
2.43.0


From e62716f525e58cd7aec40eb5dcf369c923711265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:48 +0000
Subject: [PATCH 72/89] fix: MesCC: switch with nested or falling-through
 clauses

---
 module/mescc/compile.scm | 68 +++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 65c16b3..1051567 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -684,6 +684,9 @@
                                                         (as info 'pop-r0))))))
           info))))
 
+(define (free-registers info)
+  (fold (lambda (x info) (free-register info)) info (.allocated info)))
+
 (define (push-register r info)
   (append-text info (wrap-as (as info 'push-register r))))
 
@@ -1768,6 +1771,12 @@
            ((default . _) 'default)
            ((labeled-stmt _ ,statement) (clause? statement))
            (_ #f)))
+       (define (default-clause? o)
+         (pmatch o
+           ((case _ ,statement . _) (default-clause? statement))
+           ((default . _) #t)
+           ((labeled-stmt _ ,statement) (default-clause? statement))
+           (_ #f)))
        (define clause-number
          (let ((i 0))
            (lambda (o)
@@ -1780,11 +1789,20 @@
               (label (string-append "_" (.function info) "_" here "_"))
               (break-label (string-append label "break"))
               (info (expr->register expr info))
+              (allocated (.allocated info))
+              (pushed (.pushed info))
+              (registers (.registers info))
               (info (clone info #:break (cons break-label (.break info))))
               (count (length (filter clause? statements)))
-              (default? (find (cut eq? <> 'default) (map clause? statements)))
-              (info (fold (cut switch->info #t label (1- count) <> <> <>) info statements
+              (default? (find default-clause? statements))
+              ;; each clause compares the register that holds EXPR, whatever
+              ;; the statements of the previous clause did to the registers
+              (info (fold (lambda (o i info)
+                            (switch->info #t label (1- count) o i
+                                          (clone info #:allocated allocated #:pushed pushed #:registers registers)))
+                          info statements
                           (unfold null? clause-number cdr statements)))
+              (info (free-registers info))
               (last-clause-label (string-append label "clause" (number->string count)))
               (default-label (string-append label "default"))
               (info (if (not default?) info
@@ -1911,7 +1929,6 @@
   (let* ((i-string (number->string i))
          (i+1-string (number->string (1+ i)))
          (body-label (string-append label "body" i-string))
-         (next-body-label (string-append label "body" i+1-string))
          (clause-label (string-append label "clause" i-string))
          (last? (= i count))
          (break-label (string-append label "break"))
@@ -1919,6 +1936,12 @@
          (default-label (string-append label "default")))
     (define (jump label)
       (wrap-as (as info 'jump label)))
+    (define (start-clause info)
+      ;; Falling through from the previous clause skips the test.
+      (if (not clause?) info
+          (let ((info (if (zero? i) info
+                          (append-text info (jump body-label)))))
+            (append-text info (wrap-as `((#:label ,clause-label)))))))
     (pmatch o
       ((case ,test)
        (define (jump-nz label)
@@ -1935,36 +1958,26 @@
                         (_ (error "case test: not supported: " test)))))
            (append (wrap-as (as info 'r-cmp-value value))
                    (jump-z body-label))))
-       (let ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                       info)))
+       (let ((info (start-clause info)))
          (append-text info (test->text test))))
       ((case ,test (case . ,case1))
-       (let ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                       info)))
+       (let ((info (start-clause info)))
          (fold (cut switch->info #f label count <> i <>) info (cons `(case ,test) `((case ,@case1))))))
       ((case ,test (default . ,rest))
-       (let ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                       info)))
+       (let ((info (start-clause info)))
          (fold (cut switch->info #f label count <> i <>) info (cons `(case ,test) `(default ,@rest)))))
       ((case ,test ,statement)
-       (let* ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                        info))
+       (let* ((info (start-clause info))
               (info (switch->info #f label count `(case ,test) i info))
               (info (append-text info (jump next-clause-label)))
               (info (append-text info (wrap-as `((#:label ,body-label)))))
-              (info (ast->info statement info))
-              ;; 66-local-char-array -- fallthrough FIXME
-              ;; (info (if last? info
-              ;;           (append-text info (jump next-body-label))))
-              )
+              (info (ast->info statement (free-registers info))))
          info))
       ((case ,test (case . ,case1) . ,rest)
-       (let ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                       info)))
+       (let ((info (start-clause info)))
          (fold (cut switch->info #f label count <> i <>) info (cons `(case ,test) `((case ,@case1) ,@rest)))))
       ((default (case . ,case1) . ,rest)
-       (let* ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                        info))
+       (let* ((info (start-clause info))
               (info (if last? info
                          (append-text info (jump next-clause-label))))
               (info (append-text info (wrap-as `((#:label ,default-label)))))
@@ -1972,8 +1985,7 @@
               (info (append-text info (wrap-as `((#:label ,body-label))))))
          (fold (cut switch->info #f label count <> i <>) info `((case ,@case1) ,@rest))))
       (default
-        (let* ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                         info))
+        (let* ((info (start-clause info))
                (info (if last? info
                          (append-text info (jump next-clause-label))))
                (info (append-text info (wrap-as `((#:label ,default-label)))))
@@ -1981,25 +1993,23 @@
                (info (append-text info (wrap-as `((#:label ,body-label))))))
           info))
       ((default ,statement)
-       (let* ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                        info))
+       (let* ((info (start-clause info))
               (info (if last? info
                         (append-text info (jump next-clause-label))))
               (info (append-text info (wrap-as `((#:label ,default-label)))))
               (info (append-text info (wrap-as `((#:label ,body-label))))))
-         (ast->info statement info)))
+         (ast->info statement (free-registers info))))
       ((default ,statement ,rest)
-       (let* ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                        info))
+       (let* ((info (start-clause info))
               (info (if last? info
                         (append-text info (jump next-clause-label))))
               (info (append-text info (wrap-as `((#:label ,default-label)))))
               (info (append-text info (wrap-as `((#:label ,body-label))))))
-         (fold ast->info (ast->info statement info) rest)))
+         (fold ast->info (ast->info statement (free-registers info)) rest)))
       ((labeled-stmt (ident ,goto-label) ,statement)
        (let ((info (append-text info `(((#:label ,(string-append "_" (.function info) "_label_" goto-label)))))))
          (switch->info clause? label count statement i info)))
-      (_ (ast->info o info)))))
+      (_ (ast->info o (free-registers info))))))
 
 (define (global->static function)
   (lambda (o)
-- 
2.43.0


From a6ea85f6bb0b3ef7ffa5e60d84005d92d181905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:48 +0000
Subject: [PATCH 73/89] fix: MesCC: return converts to the function's type

---
 module/mescc/compile.scm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 1051567..6c1904e 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -1897,6 +1897,8 @@
       ((return ,expr)
        (let* ((info (fold (lambda (x info) (free-register info)) info (.allocated info)))
               (info (expr->register expr info))
+              (type (and=> (assoc-ref (.functions info) (.function info)) function:type))
+              (info (append-text info (convert-r0 info type)))
               (info (free-register info)))
          (append-text info (append (wrap-as (as info 'ret))))))
 
-- 
2.43.0


From 96eff7a7cb6aaac7c01a3bea1da93847935fd1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:48 +0000
Subject: [PATCH 74/89] fix: MesCC: the value of && and || is 0 or 1

---
 module/mescc/compile.scm | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 6c1904e..c0d47a4 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -1298,9 +1298,8 @@
                 (info (append-text info (wrap-as (as info 'test-r))))
                 (info (free-register info))
                 (info (expr->register b info))
-                (info (append-text info (wrap-as (as info 'test-r))))
                 (info (append-text info (wrap-as `((#:label ,skip-b-label))))))
-           info))
+           (r->boolean info)))
 
         ((and ,a ,b)
          (let* ((info (expr->register a info))
@@ -1311,9 +1310,8 @@
                 (info (append-text info (wrap-as (as info 'test-r))))
                 (info (free-register info))
                 (info (expr->register b info))
-                (info (append-text info (wrap-as (as info 'test-r))))
                 (info (append-text info (wrap-as `((#:label ,skip-b-label))))))
-           info))
+           (r->boolean info)))
 
         ((cast ,type ,expr)
          (let ((info (expr->register expr info))
@@ -1485,6 +1483,13 @@
            (info (append-text info (wrap-as (apply as info (cons c rest))))))
       (free-register info))))
 
+(define (r->boolean info)
+  (let* ((info (append-text info (wrap-as (as info 'test-r))))
+         (info (append-text info (wrap-as (as info 'r-negate))))
+         (info (append-text info (wrap-as (as info 'test-r))))
+         (info (append-text info (wrap-as (as info 'r-negate)))))
+    (append-text info (wrap-as (as info 'test-r)))))
+
 (define (binop->r* info)
   (lambda (a b c)
     (let* ((info (expr->register* a info))
-- 
2.43.0


From 46cc8d9bdcc28509bc44a00290eff8903430c099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:48 +0000
Subject: [PATCH 75/89] fix: MesCC: an assignment has the type of what is
 assigned

---
 module/mescc/compile.scm | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index c0d47a4..439a4e0 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -1347,6 +1347,12 @@
                 (reg-size (->size "*" info))
                 (size (if (zero? rank) (->size type info) reg-size))
                 (size-b (if (zero? rank-b) (->size type-b info) reg-size))
+                (assigned-value
+                 ;; the value of an assignment has the type of what is assigned
+                 (lambda (info)
+                   (if (or (bit-field? type)
+                           (and (equal? op "=") (>= size size-b))) info
+                           (append-text info (convert-r0 info type)))))
                 (info (expr->register b info))
                 (info (if (equal? op "=") info
                           (let* ((struct? (structured-type? type))
@@ -1397,7 +1403,7 @@
            (pmatch a
              ((p-expr (ident ,name))
               (if (or (<= size r-size)
-                      (<= size-b r-size)) (append-text info ((r->ident info) name))
+                      (<= size-b r-size)) (assigned-value (append-text info ((r->ident info) name)))
                       (let* ((info (expr->register* a info))
                              (info (r0->r1-mem*n info size size-b)))
                         (free-register info))))
@@ -1431,7 +1437,7 @@
                                            (min size (max reg-size size-b))
                                            (min size (max reg-size size-b))))
                        (info (free-register info)))
-                  info)))))
+                  (assigned-value info))))))
         (_ (error "expr->register: not supported: " o))))
 
     (let ((info (helper)))
-- 
2.43.0


From a9d34d16a5a4ef0a1159b502025d4a30347343fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:48 +0000
Subject: [PATCH 76/89] fix: MesCC: nested conditional expressions

---
 module/mescc/compile.scm | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 439a4e0..1b0d698 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -1071,20 +1071,23 @@
            info))
 
         ((cond-expr ,test ,then ,else)
-         (let* ((info (append-text info (ast->comment `(cond-expr ,test (ellipsis) (ellipsis)))))
-                (here (number->string (length text)))
+         (let* ((info (append-text info (make-comment "cond-expr")))
+                ;; count the comment, so that a nested cond-expr gets other labels
+                (here (number->string (length (.text info))))
                 (label (string-append "_" (.function info) "_" here "_"))
                 (else-label (string-append label "else"))
                 (break-label (string-append label "break"))
                 (info ((test-jump-label->info info else-label) test))
+                (allocated (.allocated info))
+                (pushed (.pushed info))
+                (registers (.registers info))
                 (info (expr->register then info))
-                (info (free-register info))
                 (info (append-text info (wrap-as (as info 'jump break-label))))
                 (info (append-text info (wrap-as `((#:label ,else-label)))))
+                ;; ELSE starts with the registers and the stack as THEN did
+                (info (clone info #:allocated allocated #:pushed pushed #:registers registers))
                 (info (expr->register else info))
-                (info (free-register info))
-                (info (append-text info (wrap-as `((#:label ,break-label)))))
-                (info (allocate-register info)))
+                (info (append-text info (wrap-as `((#:label ,break-label))))))
            info))
 
         ((post-inc ,expr)
@@ -1514,11 +1517,10 @@
     (lambda (o)
       (let* ((info (expr->register o info))
              (info (append-text info (make-comment "jmp test LABEL")))
-             (jump-text (wrap-as (as info type label)))
-             (info (append-text info (append (if (null? test) '() ((car test) info))
-                                             jump-text)))
+             (info (append-text info (if (null? test) '() ((car test) info))))
+             ;; freeing a register may pop it: do so before jumping
              (info (free-register info)))
-        info)))
+        (append-text info (wrap-as (as info type label))))))
   (lambda (o)
     (pmatch o
       ((expr) info)
@@ -1547,22 +1549,6 @@
               (info (append-text info (wrap-as `((#:label ,skip-b-label))))))
          info))
 
-      ((array-ref ,index ,expr) (let* ((rank (expr->rank info expr))
-                                       (reg-size (->size "*" info))
-                                       (size (if (= rank 1) (ast-type->size info expr)
-                                                 reg-size)))
-                                  ((jump (if (= size 1) 'jump-byte-z
-                                             'jump-z)
-                                         (lambda (info) (wrap-as (as info 'r-zero?)))) o)))
-
-      ((de-ref ,expr) (let* ((rank (expr->rank info expr))
-                             (r-size (->size "*" info))
-                             (size (if (= rank 1) (ast-type->size info expr)
-                                       r-size)))
-                        ((jump (if (= size 1) 'jump-byte-z
-                                   'jump-z)
-                               (lambda (info) (wrap-as (as info 'r-zero?)))) o)))
-
       ((assn-expr (p-expr (ident ,name)) ,op ,expr)
        ((jump 'jump-z
               (lambda (info)
-- 
2.43.0


From 81d8eef24e379dd84cee258b30c32e1ee0c8ecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:55 +0000
Subject: [PATCH 77/89] fix: MesCC: signedness of comparisons, divisions and
 remainders

---
 module/mescc/compile.scm | 52 ++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 1b0d698..ad6e817 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -91,6 +91,24 @@
     (cond ((type? type) (eq? (type:type type) 'unsigned))
           (else #t))))
 
+(define (unsigned-operands? a b info)
+  ;; After the usual arithmetic conversions: types smaller than int are
+  ;; promoted to int, a larger type decides for a smaller one.
+  (define (operand-size o)
+    (if (type? o) (max 4 (type:size o))
+        (->size "*" info)))
+  (define (unsigned-operand? o)
+    (and (unsigned? o)
+         (or (not (type? o)) (>= (type:size o) 4))))
+  (let* ((type-a (ast->type a info))
+         (type-b (ast->type b info))
+         (size-a (operand-size type-a))
+         (size-b (operand-size type-b)))
+    (cond ((> size-a size-b) (unsigned-operand? type-a))
+          ((< size-a size-b) (unsigned-operand? type-b))
+          (else (or (unsigned-operand? type-a)
+                    (unsigned-operand? type-b))))))
+
 (define (->size o info)
   (cond ((and (type? o) (eq? (type:type o) 'union))
          (apply max (map (compose (cut ->size <> info) cdr) (struct->fields o))))
@@ -143,8 +161,8 @@
       ((type-name ,type) (ast->type type info))
       ((type-spec ,type) (ast->type type info))
 
-      ((sizeof-expr ,expr) (get-type "unsigned" info))
-      ((sizeof-type ,type) (get-type "unsigned" info))
+      ((sizeof-expr ,expr) (get-type "unsigned long" info))
+      ((sizeof-type ,type) (get-type "unsigned long" info))
 
       ((string ,string) (make-c-array (get-type "char" info) (1+ (string-length string))))
 
@@ -1224,9 +1242,9 @@
         ((rshift ,a ,b) ((binop->r info) a b 'r0>>r1))
         ((div ,a ,b)
          ((binop->r info) a b 'r0/r1
-          (signed? (ast->type a info))))
+          (not (unsigned-operands? a b info))))
         ((mod ,a ,b) ((binop->r info) a b 'r0%r1
-                      (signed? (ast->type a info))))
+                      (not (unsigned-operands? a b info))))
         ((mul ,a ,b) ((binop->r info) a b 'r0*r1))
 
         ((not ,expr)
@@ -1251,19 +1269,15 @@
                       (append-text info (wrap-as (as info 'zf->r)))))
 
         ((ge ,a ,b)
-         (let* ((type-a (ast->type a info))
-                (type-b (ast->type b info))
-                (info ((binop->r info) a b 'r0-r1))
-                (test->r (if (or (unsigned? type-a) (unsigned? type-b)) 'ae?->r 'ge?->r))
+         (let* ((info ((binop->r info) a b 'r0-r1))
+                (test->r (if (unsigned-operands? a b info) 'ae?->r 'ge?->r))
                 (info (append-text info (wrap-as (as info test->r))))
                 (info (append-text info (wrap-as (as info 'test-r)))))
            info))
 
         ((gt ,a ,b)
-         (let* ((type-a (ast->type a info))
-                (type-b (ast->type b info))
-                (info ((binop->r info) a b 'r0-r1))
-                (test->r (if (or (unsigned? type-a) (unsigned? type-b)) 'a?->r 'g?->r))
+         (let* ((info ((binop->r info) a b 'r0-r1))
+                (test->r (if (unsigned-operands? a b info) 'a?->r 'g?->r))
                 (info (append-text info (wrap-as (as info test->r))))
                 (info (append-text info (wrap-as (as info 'test-r)))))
            info))
@@ -1275,19 +1289,15 @@
                       info))
 
         ((le ,a ,b)
-         (let* ((type-a (ast->type a info))
-                (type-b (ast->type b info))
-                (info ((binop->r info) a b 'r0-r1))
-                (test->r (if (or (unsigned? type-a) (unsigned? type-b)) 'be?->r 'le?->r))
+         (let* ((info ((binop->r info) a b 'r0-r1))
+                (test->r (if (unsigned-operands? a b info) 'be?->r 'le?->r))
                 (info (append-text info (wrap-as (as info test->r))))
                 (info (append-text info (wrap-as (as info 'test-r)))))
            info))
 
         ((lt ,a ,b)
-         (let* ((type-a (ast->type a info))
-                (type-b (ast->type b info))
-                (info ((binop->r info) a b 'r0-r1))
-                (test->r (if (or (unsigned? type-a) (unsigned? type-b)) 'b?->r 'l?->r))
+         (let* ((info ((binop->r info) a b 'r0-r1))
+                (test->r (if (unsigned-operands? a b info) 'b?->r 'l?->r))
                 (info (append-text info (wrap-as (as info test->r))))
                 (info (append-text info (wrap-as (as info 'test-r)))))
            info))
@@ -1371,7 +1381,7 @@
                                              info)))
                                  (info (expr->register a info))
                                  (info (append-text info (wrap-as (as info 'swap-r0-r1))))
-                                 (signed? (signed? type))
+                                 (signed? (not (unsigned-operands? a b info)))
                                  (info (append-text info (cond ((equal? op "+=") (wrap-as (as info 'r0+r1)))
                                                                ((equal? op "-=") (wrap-as (as info 'r0-r1)))
                                                                ((equal? op "*=") (wrap-as (as info 'r0*r1)))
-- 
2.43.0


From 8f8864c35dbb849ec78b368df5c878a5472c28f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:25 +0000
Subject: [PATCH 78/89] fix: define: keep the kind of definition while its
 value is evaluated

---
 src/eval-apply.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index c032ef8..831dfc8 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -655,6 +655,13 @@ eval:
                     goto eval;
                   }
               eval_define:
+                /* Evaluating the value may have evaluated other definitions. */
+                global_p = 0;
+                if (R0->car->car != cell_closure)
+                  global_p = 1;
+                macro_p = 0;
+                if (R2->car == cell_symbol_define_macro)
+                  macro_p = 1;
                 name = R2->cdr->car;
                 aa = R2->cdr->car;
                 if (aa->type == TPAIR)
-- 
2.43.0


From a761f01f4e06902d96b872e5d02dfeb2d8ab7074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:25 +0000
Subject: [PATCH 79/89] fix: display: false tails, escapes and character codes

---
 mes/module/mes/display.mes | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mes/module/mes/display.mes b/mes/module/mes/display.mes
index e3bbf58..b2c2ce7 100644
--- a/mes/module/mes/display.mes
+++ b/mes/module/mes/display.mes
@@ -75,6 +75,12 @@
                 ((eq? x #\page)
                  (write-char #\\ port)
                  (write-char #\f port))
+                ((eq? x #\return)
+                 (write-char #\\ port)
+                 (write-char #\r port))
+                ((eq? x (integer->char 27))
+                 (write-char #\\ port)
+                 (write-char #\e port))
                 (#t (write-char x port)))
           (write-char x port)))
 
@@ -96,12 +102,14 @@
                                          (#\space . space)))
                                cdr)))
               (write-char #\# port)
-              (when (or name
-                        (and (>= (char->integer 32))
-                             (<= (char->integer 127))))
-                (write-char #\\ port))
-              (if name (display name port)
-                  (write-char x port)))))
+              (write-char #\\ port)
+              (cond (name (display name port))
+                    ((and (> (char->integer x) 32)
+                          (< (char->integer x) 127))
+                     (write-char x port))
+                    (#t
+                     (write-char #\x port)
+                     (display (number->string (char->integer x) 16) port))))))
        ((closure? x)
         (display "#<procedure " port)
         (let ((name (and=> (next-xassq2 x (current-module)) car)))
@@ -120,7 +128,7 @@
        ((port? x)
         (display "#<port " port)
         (display (core:cdr x) port)
-        (display " ")
+        (display " " port)
         (display (core:car x) port)
         (display ">" port))
        ((variable? x)
@@ -138,7 +146,7 @@
               (#t
                (display (car x) port write?)
                (if (pair? (cdr x)) (d (cdr x) #t " ")
-                   (if (and (cdr x) (not (null? (cdr x))))
+                   (if (not (null? (cdr x)))
                        (begin
                          (display " . " port)
                          (display (cdr x) port write?))))))
-- 
2.43.0


From 61b6dd4faa10d7f9abf9857c0d2544afc4cca052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:24 +0000
Subject: [PATCH 80/89] fix: make-hash-table: accept an optional size

---
 src/builtins.c | 2 +-
 src/hash.c     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/builtins.c b/src/builtins.c
index c4ebb92..1107a91 100644
--- a/src/builtins.c
+++ b/src/builtins.c
@@ -180,7 +180,7 @@ mes_builtins (struct scm *a)            /*:((internal)) */
   a = init_builtin (builtin_type, "hashq-set!", 3, &hashq_set_x, a);
   a = init_builtin (builtin_type, "hash-set!", 3, &hash_set_x, a);
   a = init_builtin (builtin_type, "hash-table-printer", 1, &hash_table_printer, a);
-  a = init_builtin (builtin_type, "make-hash-table", 1, &make_hash_table, a);
+  a = init_builtin (builtin_type, "make-hash-table", -1, &make_hash_table, a);
   /* src/lib.c */
   a = init_builtin (builtin_type, "core:type", 1, &type_, a);
   a = init_builtin (builtin_type, "core:car", 1, &car_, a);
diff --git a/src/hash.c b/src/hash.c
index ebc8799..dbd92e4 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -201,11 +201,12 @@ make_hash_table_ (long size)
 }
 
 struct scm *
-make_hash_table (struct scm *x)
+make_hash_table (struct scm *x)         /*:((arity . n)) */
 {
   long size = 0;
   if (x->type == TPAIR)
     {
+      x = x->car;
       assert_msg (x->type == TNUMBER, "x->type == TNUMBER");
       size = x->value;
     }
-- 
2.43.0


From 4aac762cf7f45137ad9b703ca17393d345069f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:59 +0000
Subject: [PATCH 81/89] fix: gc: stop when the live data do not fit

---
 src/gc.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/gc.c b/src/gc.c
index d130655..601f97d 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -484,16 +484,30 @@ gc_flip ()
     gc_stats_ (";;; => jam");
 }
 
+/* The copies are made above the cells in use: they must not run into
+   the live part of the stack. */
+void
+gc_room (long n)
+{
+  char *p = cast_voidp_to_charp (g_free + (n * M2_CELL_SIZE));
+  char *end = cast_voidp_to_charp (g_stack_array);
+  end = end + (g_stack * sizeof (struct scm *));
+  if (p > end)
+    assert_msg (0, "gc: out of memory");
+}
+
 struct scm *
 gc_copy (struct scm *old)               /*:((internal)) */
 {
   if (old->type == TBROKEN_HEART)
     return old->car;
+  gc_room (1);
   struct scm *new = g_free;
   g_free = g_free + M2_CELL_SIZE;
   copy_news (new, old);
   if (new->type == TSTRUCT || new->type == TVECTOR)
     {
+      gc_room (old->length);
       new->vector = g_free;
       long i;
       for (i = 0; i < old->length; i = i + 1)
@@ -507,6 +521,7 @@ gc_copy (struct scm *old)               /*:((internal)) */
       char const *src = cell_bytes (old);
       char *dest = news_bytes (new);
       size_t length = new->length;
+      gc_room (bytes_cells (length) - 1);
       memcpy (dest, src, length);
       g_free = g_free + ((bytes_cells (length) - 1) * M2_CELL_SIZE);
 
-- 
2.43.0


From 145b03472c2cf816aa1a2c91e5c6b566ed815df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:25 +0000
Subject: [PATCH 82/89] fix: MesCC: address of a function or variable by name
 in a data initialiser

---
 module/mescc/compile.scm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index ad6e817..cc2dbaa 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -2437,7 +2437,7 @@
            `((#:string ,(string-join strings ""))))))
     ((ident ,name) (let ((var (ident->variable info name)))
                      (if (number? var) (int->bv type var info)
-                         `((#:address ,var)))))
+                         (init->data type `(ref-to (p-expr (ident ,name))) info))))
     ((initzer-list . ,inits)
      (cond ((structured-type? type)
             (map (cut init->data <> <> info) (map cdr (struct->init-fields type)) inits))
-- 
2.43.0


From 0d7bb442494dfd9fdaba5d9cc6825b5ccc91689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:02 +0000
Subject: [PATCH 83/89] fix: MesCC: the difference of two pointers is signed

---
 module/mescc/compile.scm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index cc2dbaa..2b38428 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -830,7 +830,7 @@
                         (info (append-text info (wrap-as (append
                                                           (as info 'value->r size)
                                                           (as info 'swap-r0-r1)
-                                                          (as info 'r0/r1 #f)))))
+                                                          (as info 'r0/r1 #t)))))
                         (info (append-text info (wrap-as (append (as info 'swap-r0-r1)))))
                         (free-register info))
                    info)))
@@ -1218,7 +1218,7 @@
                      ;; FIXME: c&p 792
                      (let* ((info (allocate-register info))
                             (info (append-text info (wrap-as (append (as info 'value->r size)
-                                                                     (as info 'r0/r1 #f)))))
+                                                                     (as info 'r0/r1 #t)))))
                             (info (free-register info)))
                        info)))
                (let* ((info (expr->register b info))
-- 
2.43.0


From 55264e311587769f322127a283f17af7edeae546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:47 +0000
Subject: [PATCH 84/89] fix: MesCC: the difference of two pointers is an
 integer

---
 module/mescc/compile.scm | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 2b38428..c724519 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -226,7 +226,9 @@
       ((post-inc ,a) (ast->type a info))
       ((post-dec ,a) (ast->type a info))
       ((add ,a ,b) (ast->type a info))
-      ((sub ,a ,b) (ast->type a info))
+      ((sub ,a ,b)
+       (if (and (> (expr->rank info a) 0) (> (expr->rank info b) 0)) (get-type "long" info)
+           (ast->type a info)))
       ((bitwise-and ,a ,b) (ast->type a info))
       ((bitwise-not ,a) (ast->type a info))
       ((bitwise-or ,a ,b) (ast->type a info))
-- 
2.43.0


From 7efa7c21b12e1cca588c1af109cf1449068666f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:13 +0000
Subject: [PATCH 85/89] fix: MesCC: a member through any pointer expression

---
 module/mescc/compile.scm | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index c724519..43829c4 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -774,11 +774,8 @@
     ((i-sel (ident ,field) ,struct)
      (let* ((type (ast->basic-type struct info))
             (offset (field-offset info type field))
-            (info (expr->register* struct info))
-            (type (ast->type struct info)))
-       (append-text info (append (if (c-array? type) '()
-                                     (wrap-as (as info 'mem->r)))
-                                 (wrap-as (as info 'r+value offset))))))
+            (info (expr->register struct info)))
+       (append-text info (wrap-as (as info 'r+value offset)))))
 
     ((array-ref ,index ,array)
      (let* ((info (expr->register index info))
-- 
2.43.0


From 311a2e93f1800f6cc71afa08ebab4ced601280d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:42 +0000
Subject: [PATCH 86/89] fix: x86.M1: stores of %cl and %cx were loads

---
 lib/x86-mes/x86.M1 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/x86-mes/x86.M1 b/lib/x86-mes/x86.M1
index ede7979..010b5cf 100644
--- a/lib/x86-mes/x86.M1
+++ b/lib/x86-mes/x86.M1
@@ -89,8 +89,8 @@ DEFINE mov____%al,0x8(%ebp) 8845
 DEFINE mov____%ax,(%ebx) 668903
 DEFINE mov____%ax,0x8(%ebp) 668945
 DEFINE mov____%bx,%bx 6689db
-DEFINE mov____%cl,(%ebx) 8a08
-DEFINE mov____%cx,(%ebx) 668b08
+DEFINE mov____%cl,(%ebx) 880b
+DEFINE mov____%cx,(%ebx) 66890b
 DEFINE mov____%dl,(%eax) 8810
 DEFINE mov____%dl,0x8(%eax) 8850
 DEFINE mov____%eax,%ebx 89c3
-- 
2.43.0


From 1867dcf7fda41f8b6d4fcbb334d360d4d1503110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:42 +0000
Subject: [PATCH 87/89] fix: MesCC: comparisons and logical operators give an
 int

---
 module/mescc/compile.scm | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 43829c4..919299b 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -238,19 +238,19 @@
       ((div ,a ,b) (ast->type a info))
       ((mod ,a ,b) (ast->type a info))
       ((mul ,a ,b) (ast->type a info))
-      ((not ,a) (ast->type a info))
+      ((not ,a) (get-type "int" info))
       ((pos ,a) (ast->type a info))
       ((neg ,a) (ast->type a info))
-      ((eq ,a ,b) (ast->type a info))
-      ((ge ,a ,b) (ast->type a info))
-      ((gt ,a ,b) (ast->type a info))
-      ((ne ,a ,b) (ast->type a info))
-      ((le ,a ,b) (ast->type a info))
-      ((lt ,a ,b) (ast->type a info))
+      ((eq ,a ,b) (get-type "int" info))
+      ((ge ,a ,b) (get-type "int" info))
+      ((gt ,a ,b) (get-type "int" info))
+      ((ne ,a ,b) (get-type "int" info))
+      ((le ,a ,b) (get-type "int" info))
+      ((lt ,a ,b) (get-type "int" info))
 
       ;; logical
-      ((or ,a ,b) (ast->type a info))
-      ((and ,a ,b) (ast->type a info))
+      ((or ,a ,b) (get-type "int" info))
+      ((and ,a ,b) (get-type "int" info))
 
       ((cast (type-name ,type) ,expr) (ast->type type info))
 
-- 
2.43.0


From e8c55ced0b39359f4da3465e5d9370afb1534101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:42 +0000
Subject: [PATCH 88/89] fix: MesCC: integer plus pointer scales the integer

---
 module/mescc/compile.scm | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 919299b..89495e9 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -225,10 +225,16 @@
       ((pre-dec ,a) (ast->type a info))
       ((post-inc ,a) (ast->type a info))
       ((post-dec ,a) (ast->type a info))
-      ((add ,a ,b) (ast->type a info))
+      ((add ,a ,b)
+       (let ((type (ast->type a info)))
+         (if (> (->rank type) 0) type
+             (let ((type-b (ast->type b info)))
+               (if (> (->rank type-b) 0) type-b
+                   type)))))
       ((sub ,a ,b)
-       (if (and (> (expr->rank info a) 0) (> (expr->rank info b) 0)) (get-type "long" info)
-           (ast->type a info)))
+       (let ((type (ast->type a info)))
+         (if (and (> (->rank type) 0) (> (expr->rank info b) 0)) (get-type "long" info)
+             type)))
       ((bitwise-and ,a ,b) (ast->type a info))
       ((bitwise-not ,a) (ast->type a info))
       ((bitwise-or ,a ,b) (ast->type a info))
@@ -1149,6 +1155,10 @@
 
 
 
+        ((add ,a ,b) (guard (and (zero? (expr->rank info a))
+                                 (> (expr->rank info b) 0)))
+         (expr->register `(add ,b ,a) info))
+
         ((add ,a (p-expr (fixed ,value)))
          (let* ((rank (expr->rank info a))
                 (type (ast->basic-type a info))
-- 
2.43.0


From 117bc6f20a130f7f3953d16debe4f5422d95ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:42 +0000
Subject: [PATCH 89/89] fix: MesCC: assign small structures by content

---
 module/mescc/compile.scm | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 89495e9..3e472fe 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -748,11 +748,24 @@
                                  (as info 'r0+value 2)
                                  (loop (+ i 2))))
                     ((4) (append (as info 'long-r0-mem->r1-mem)))
+                    ((5 6 7) (append (as info 'long-r0-mem->r1-mem)
+                                     (as info 'r+value 4)
+                                     (as info 'r0+value 4)
+                                     (loop (+ i 4))))
                     (else (append (as info 'r0-mem->r1-mem)
                                   (as info 'r+value reg-size)
                                   (as info 'r0+value reg-size)
                                   (loop (+ i reg-size))))))))))))
 
+(define (struct-assignment? a b info)
+  (define (place? o)
+    (and (pair? o)
+         (or (memq (car o) '(de-ref d-sel i-sel array-ref))
+             (and (eq? (car o) 'p-expr) (pair? (cadr o)) (eq? (caadr o) 'ident)))))
+  (and (place? a) (place? b)
+       (let ((type (ast->type a info)))
+         (and (type? type) (structured-type? type)))))
+
 (define (r0->r1-mem*n info n size)
   (append-text info (r0->r1-mem*n- info n size)))
 
@@ -1360,6 +1373,21 @@
                             (else 1))))
            (append-text info ((ident-add info) name (- size)))))
 
+        ((assn-expr ,a (op ,op) ,b) (guard (and (equal? op "=") (struct-assignment? a b info)))
+         (let* ((info (append-text info (ast->comment o)))
+                (size (ast->size a info))
+                (reg-size (->size "*" info))
+                (info (expr->register* b info))
+                (info (append-text info
+                                   (cond ((= size reg-size) (wrap-as (as info 'mem->r)))
+                                         ((= size 1) (wrap-as (as info 'byte-mem->r)))
+                                         ((= size 2) (wrap-as (as info 'word-mem->r)))
+                                         ((= size 4) (wrap-as (as info 'long-mem->r)))
+                                         (else '()))))
+                (info (expr->register* a info))
+                (info (r0->r1-mem*n info size size)))
+           (free-register info)))
+
         ((assn-expr ,a (op ,op) ,b)
          (let* ((info (append-text info (ast->comment o)))
                 (type (ast->type a info))
-- 
2.43.0

