From ece20477acbcb0cc19e1c48cd9b8045e1ea9ad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 01/26] fix: libc stdio: handle short reads/writes, failed
 writes and read-ahead positions; add ferror

---
 include/stdio.h         |   1 +
 libsrc/stdio/_file.c    | 130 +++++++++++++++++-----------------------
 libsrc/stdio/_file.h    |   5 +-
 libsrc/stdio/_fileman.c |  10 ++--
 libsrc/stdio/fdopen.c   |  12 ++--
 libsrc/stdio/ferror.c   |   7 +++
 libsrc/stdio/fgets.c    |   9 ++-
 libsrc/stdio/fputs.c    |   7 ++-
 libsrc/stdio/fread.c    |  18 +++++-
 libsrc/stdio/fseek.c    |   3 +-
 libsrc/stdio/ftell.c    |   9 ++-
 libsrc/stdio/fwrite.c   |   3 +
 libsrc/stdio/getline.c  |  14 ++++-
 libsrc/stdio/stdin.c    |   9 ++-
 libsrc/stdio/ungetc.c   |   6 +-
 libsrc/stdio/vfprintf.c |   8 +++
 16 files changed, 147 insertions(+), 104 deletions(-)
 create mode 100644 libsrc/stdio/ferror.c

diff --git a/include/stdio.h b/include/stdio.h
index e8c7252..9317cc7 100644
--- a/include/stdio.h
+++ b/include/stdio.h
@@ -53,6 +53,7 @@ int fflush(FILE *fp);
 int fseek(FILE *fp, long offset, int origin);
 long ftell(FILE *fp);
 int feof(FILE *fp);
+int ferror(FILE *fp);
 int remove(const char *fn);
 
 int fgetc(FILE *fp);
diff --git a/libsrc/stdio/_file.c b/libsrc/stdio/_file.c
index eb74f5d..3582242 100644
--- a/libsrc/stdio/_file.c
+++ b/libsrc/stdio/_file.c
@@ -1,80 +1,46 @@
 #include "stdio.h"
 
-#include "stdlib.h"  // free
-#include "string.h"  // memcpy
-#include "sys/stat.h"  // fstat
+#include "stdint.h"  // uintptr_t
+#include "string.h"  // memcpy, memmove
 #include "unistd.h"
 
 #include "./_file.h"
 
-// Normal: if actual read size is less than required size, it means EOF.
-// Pipe:   if subscriber is faster than publisher, it happens. len == 0 means EOF.
-#define FILE_IS_END(fp, readsize)  (!((fp)->flag & FF_FIFO) || (readsize) == 0)
-
-static void _finit(FILE *fp) {
-  if ((fp->flag & FF_INITIALIZED))
-    return;
-
-  struct stat st;
-  int r = fstat(fp->fd, &st);
-  if (r == 0) {
-    switch (st.st_mode & S_IFMT) {
-    case S_IFIFO:
-    case S_IFSOCK:
-      fp->flag |= FF_FIFO;
-      break;
-    default:
-      break;
-    }
-  } else {
-    // TODO: Retry.
-  }
-  fp->flag |= FF_INITIALIZED;
-}
-
 ssize_t _fread(void *cookie, char *buf, size_t total) {
   FILE *fp = cookie;
-  _finit(fp);
   unsigned char *p = (unsigned char*)buf;
-  if (fp->rs > 0) {
+  // `read` might return less than requested, so repeat until satisfied, end of file, or error.
+  for (size_t rest = total; rest > 0; ) {
     size_t d = fp->rs - fp->rp;
-    if (total <= d) {
-      memcpy(p, &fp->rbuf[fp->rp], total);
-      fp->rp += total;
-      if (fp->rp >= fp->rs)
-        fp->rp = fp->rs = 0;
-      return total;
+    if (d > 0) {
+      if (d > rest)
+        d = rest;
+      memcpy(p, &fp->rbuf[fp->rp], d);
+      fp->rp += d;
+      p += d;
+      rest -= d;
+      continue;
     }
-    memcpy(p, &fp->rbuf[fp->rp], d);
-    total -= d;
-    p += d;
-  }
 
-  if (total < fp->rcapa * 3 / 4) {
-    // Read more than requested size and store them to the buffer.
-    ssize_t len = read(fp->fd, fp->rbuf, fp->rcapa);
-    fp->rs = len;
-    size_t n = len < 0 || (size_t)len < total ? (size_t)len : total;
-    fp->rp = n;
-    if (n > 0) {
-      memcpy(p, fp->rbuf, n);
-      p += n;
-    }
-    if (len < (ssize_t)fp->rcapa && (ssize_t)n == len) {
-      if (FILE_IS_END(fp, len))
-        fp->flag |= FF_EOF;
-    }
-  } else {
-    // Read to the given buffer directly.
-    ssize_t len = read(fp->fd, p, total);
-    if (len >= 0) {
-      p += len;
-      fp->rp = fp->rs = 0;
-      if ((size_t)len < total) {
-        if (FILE_IS_END(fp, len))
-          fp->flag |= FF_EOF;
+    fp->rp = fp->rs = 0;
+    ssize_t len;
+    if (rest < fp->rcapa * 3 / 4) {
+      // Read more than requested size and store them to the buffer.
+      len = read(fp->fd, fp->rbuf, fp->rcapa);
+      if (len > 0)
+        fp->rs = len;
+    } else {
+      // Read to the given buffer directly.
+      len = read(fp->fd, p, rest);
+      if (len > 0) {
+        p += len;
+        rest -= len;
       }
     }
+    if (len <= 0) {
+      fp->flag |= len == 0 ? FF_EOF : FF_ERROR;
+      break;
+    }
   }
 
   // TODO: Align by size.
@@ -83,17 +49,20 @@ ssize_t _fread(void *cookie, char *buf, size_t total) {
 
 ssize_t _fwrite(void *cookie, const char *buf, size_t size) {
   FILE *fp = cookie;
-  _finit(fp);
-  if (fp->wp >= fp->wcapa && (*fp->flush)(fp) != 0)
+  if (!(fp->flag & FF_WRITE))
     return EOF;
 
   for (size_t i = 0; i < size; ++i) {
+    if (fp->wp >= fp->wcapa && (*fp->flush)(fp) != 0)
+      return i;
+
     char c = *buf++;
     fp->wbuf[fp->wp++] = c;
-    if (fp->wp >= fp->wcapa ||
-        (c == '\n' && !(fp->flag & FF_BINARY))) {
-      if ((*fp->flush)(fp) != 0)
+    if (c == '\n' && !(fp->flag & FF_BINARY)) {
+      if ((*fp->flush)(fp) != 0) {
+        --fp->wp;  // `c` is not accepted (it cannot have been written, because it is the last one).
         return i;
+      }
     }
   }
   return size;
@@ -101,12 +70,20 @@ ssize_t _fwrite(void *cookie, const char *buf, size_t size) {
 
 int _fflush(FILE *fp) {
   if (fp->flag & FF_WRITE) {
-    unsigned int wp = fp->wp;
-    if (wp > 0) {
-      size_t write_size = write(fp->fd, fp->wbuf, wp);
-      if (write_size != (size_t)wp)
-        return EOF;
-      fp->wp = 0;
+    unsigned int wp = fp->wp, done = 0;
+    while (done < wp) {
+      ssize_t written = write(fp->fd, fp->wbuf + done, wp - done);
+      if (written <= 0)
+        break;
+      done += written;
+    }
+    fp->wp = wp - done;
+    if (done < wp) {
+      // Keep unwritten data.
+      if (done > 0)
+        memmove(fp->wbuf, fp->wbuf + done, wp - done);
+      fp->flag |= FF_ERROR;
+      return EOF;
     }
   }
   return 0;
@@ -114,7 +91,10 @@ int _fflush(FILE *fp) {
 
 int _fseek(void *cookie, off_t *offset, int origin) {
   FILE *fp = cookie;
-  off_t result = lseek(fp->fd, *offset, origin);
+  off_t ofs = *offset;
+  if (origin == SEEK_CUR)  // Prefetched data is not consumed yet.
+    ofs -= (off_t)(fp->rs - fp->rp) + (fp->unget_char != EOF ? 1 : 0);
+  off_t result = lseek(fp->fd, ofs, origin);
   if (result == -1)
     return -1;
   fp->flag &= ~FF_EOF;
diff --git a/libsrc/stdio/_file.h b/libsrc/stdio/_file.h
index 20ff2c9..af9fd30 100644
--- a/libsrc/stdio/_file.h
+++ b/libsrc/stdio/_file.h
@@ -8,8 +8,7 @@
 #define FF_WRITE        (1 << 2)
 #define FF_EOF          (1 << 3)
 #define FF_GROWMEM      (1 << 4)
-#define FF_FIFO         (1 << 5)
-#define FF_INITIALIZED  (1 << 15)
+#define FF_ERROR        (1 << 5)
 
 typedef ssize_t (*cookie_read_function_t)(void *cookie, char *buf, size_t size);
 typedef ssize_t (*cookie_write_function_t)(void *cookie, const char *buf, size_t size);
@@ -41,7 +40,7 @@ extern ssize_t _fwrite(void *cookie, const char *buf, size_t size);
 extern int _fseek(void *cookie, off_t *offset, int origin);
 extern int _fflush(FILE *fp);
 
-extern void _add_opened_file(FILE *fp);
+extern int _add_opened_file(FILE *fp);  // 0=success, EOF=failure
 extern void _remove_opened_file(FILE *fp);
 extern int _detect_open_flag(const char *mode);
 
diff --git a/libsrc/stdio/_fileman.c b/libsrc/stdio/_fileman.c
index 5aded15..e3df3ef 100644
--- a/libsrc/stdio/_fileman.c
+++ b/libsrc/stdio/_fileman.c
@@ -9,19 +9,17 @@
 
 FILEMAN __fileman;
 
-void _add_opened_file(FILE *fp) {
+int _add_opened_file(FILE *fp) {
   if (__fileman.length >= __fileman.capacity) {
     int ncapa = __fileman.capacity > 0 ? __fileman.capacity << 1 : INITIAL_CAPACITY;
     FILE **buf = realloc(__fileman.opened, ncapa * sizeof(*__fileman.opened));
-    if (buf == NULL) {
-      // TODO:
-      fputs("Out of memory\n", stderr);
-      exit(1);
-    }
+    if (buf == NULL)
+      return EOF;
     __fileman.opened = buf;
     __fileman.capacity = ncapa;
   }
   __fileman.opened[__fileman.length++] = fp;
+  return 0;
 }
 
 void _remove_opened_file(FILE *fp) {
diff --git a/libsrc/stdio/fdopen.c b/libsrc/stdio/fdopen.c
index 2d051a0..425a398 100644
--- a/libsrc/stdio/fdopen.c
+++ b/libsrc/stdio/fdopen.c
@@ -13,10 +13,11 @@
 static int _fclose(void *cookie) {
   FILE *fp = cookie;
   _remove_opened_file(fp);
-  (*fp->flush)(fp);
-  close(fp->fd);
+  int result = (*fp->flush)(fp);
+  if (close(fp->fd) != 0)
+    result = EOF;
   free(fp);
-  return 0;
+  return result;
 }
 
 FILE *fdopen(int fd, const char *mode) {
@@ -63,7 +64,10 @@ FILE *fdopen(int fd, const char *mode) {
       p += (fp->wcapa = WCAPA);
     }
 
-    _add_opened_file(fp);
+    if (_add_opened_file(fp) != 0) {
+      free(fp);
+      fp = NULL;
+    }
   }
   return fp;
 }
diff --git a/libsrc/stdio/ferror.c b/libsrc/stdio/ferror.c
new file mode 100644
index 0000000..ec0f474
--- /dev/null
+++ b/libsrc/stdio/ferror.c
@@ -0,0 +1,7 @@
+#include "stdio.h"
+
+#include "_file.h"
+
+int ferror(FILE *fp) {
+  return (fp->flag & FF_ERROR) ? 1 : 0;
+}
diff --git a/libsrc/stdio/fgets.c b/libsrc/stdio/fgets.c
index 8bfce2e..031a54e 100644
--- a/libsrc/stdio/fgets.c
+++ b/libsrc/stdio/fgets.c
@@ -1,8 +1,12 @@
 #include "stdio.h"
 
+#include "./_file.h"
+
 char *fgets(char *s, int n, FILE *fp) {
   --n;
   char *p = s;
+  unsigned int error = fp->flag & FF_ERROR;
+  fp->flag &= ~FF_ERROR;
   for (int i = 0; i < n; ++i) {
     int c = fgetc(fp);
     if (c == EOF)
@@ -11,8 +15,11 @@ char *fgets(char *s, int n, FILE *fp) {
     if (c == '\n')
       break;
   }
-  if (p == s)
+  if (p == s || (fp->flag & FF_ERROR)) {
+    fp->flag |= error;
     return NULL;
+  }
+  fp->flag |= error;
   *p = '\0';
   return s;
 }
diff --git a/libsrc/stdio/fputs.c b/libsrc/stdio/fputs.c
index 0189ea1..6dad719 100644
--- a/libsrc/stdio/fputs.c
+++ b/libsrc/stdio/fputs.c
@@ -1,8 +1,9 @@
 #include "stdio.h"
 #include "string.h"
 
-// Result: Success => positive value, Failure => EOF
+// Result: Success => non-negative value, Failure => EOF
 int fputs(const char *s, FILE *fp) {
-  size_t result = fwrite(s, 1, strlen(s), fp);
-  return result != 0 ? result : EOF;
+  size_t len = strlen(s);
+  size_t result = fwrite(s, 1, len, fp);
+  return result == len ? (int)result : EOF;
 }
diff --git a/libsrc/stdio/fread.c b/libsrc/stdio/fread.c
index 67e0876..8afa441 100644
--- a/libsrc/stdio/fread.c
+++ b/libsrc/stdio/fread.c
@@ -5,6 +5,20 @@
 size_t fread(void *buffer, size_t size, size_t count, FILE *fp) {
   if (!(fp->flag & FF_READ))
     return 0;
-  ssize_t result = (fp->iof->read)(fp, buffer, size * count);
-  return result >= 0 ? result / size : 0;
+  size_t total = size * count;
+  if (total == 0)
+    return 0;
+
+  char *p = buffer;
+  size_t n = 0;
+  if (fp->unget_char != EOF) {
+    p[n++] = fp->unget_char;
+    fp->unget_char = EOF;
+  }
+  if (n < total) {
+    ssize_t result = (fp->iof->read)(fp, p + n, total - n);
+    if (result > 0)
+      n += result;
+  }
+  return n / size;
 }
diff --git a/libsrc/stdio/fseek.c b/libsrc/stdio/fseek.c
index 88f9c5a..f2786df 100644
--- a/libsrc/stdio/fseek.c
+++ b/libsrc/stdio/fseek.c
@@ -3,7 +3,8 @@
 #include "./_file.h"
 
 int fseek(FILE *fp, long offset, int origin) {
-  fflush(fp);
+  if (fflush(fp) != 0)
+    return -1;
   off_t o = offset;
   if ((fp->iof->seek)(fp, &o, origin) == -1)
     return -1;
diff --git a/libsrc/stdio/ftell.c b/libsrc/stdio/ftell.c
index a7cd849..936e64f 100644
--- a/libsrc/stdio/ftell.c
+++ b/libsrc/stdio/ftell.c
@@ -1,9 +1,14 @@
 #include "stdio.h"
-#include "unistd.h"  // read
+#include "unistd.h"  // lseek
 
 #include "./_file.h"
 
 long ftell(FILE *fp) {
+  // In append mode, the position is determined when data is written.
+  if (fflush(fp) != 0)
+    return -1;
   off_t result = lseek(fp->fd, 0, SEEK_CUR);
-  return result >= 0 ? result + fp->wp - (fp->rs - fp->rp) : result;
+  if (result < 0)
+    return -1;
+  return result - (off_t)(fp->rs - fp->rp) - (fp->unget_char != EOF ? 1 : 0);
 }
diff --git a/libsrc/stdio/fwrite.c b/libsrc/stdio/fwrite.c
index 29deac1..5b60d08 100644
--- a/libsrc/stdio/fwrite.c
+++ b/libsrc/stdio/fwrite.c
@@ -7,6 +7,9 @@ size_t fwrite(const void *buffer, size_t size, size_t count, FILE *fp) {
   if (!(fp->flag & FF_WRITE))
     return 0;
 
+  if (size == 0 || count == 0)
+    return 0;
+
   ssize_t result = (fp->iof->write)(fp, buffer, size * count);
   return result >= 0 ? result / size : 0;
 }
diff --git a/libsrc/stdio/getline.c b/libsrc/stdio/getline.c
index 1096ff7..c3a0143 100644
--- a/libsrc/stdio/getline.c
+++ b/libsrc/stdio/getline.c
@@ -1,6 +1,8 @@
 #include "stdio.h"
 #include "stdlib.h"  // realloc
 
+#include "./_file.h"
+
 ssize_t getline(char **lineptr, size_t *pcapa, FILE *stream) {
   const int MIN_CAPA = 16;
   ssize_t capa = *pcapa;
@@ -10,11 +12,19 @@ ssize_t getline(char **lineptr, size_t *pcapa, FILE *stream) {
     top = NULL;
     capa = 0;
   }
+  unsigned int error = stream->flag & FF_ERROR;
+  stream->flag &= ~FF_ERROR;
   for (;;) {
     int c = fgetc(stream);
     if (c == EOF) {
-      if (size == 0)
+      if (size == 0 || (stream->flag & FF_ERROR)) {
+        if (size > 0) {
+          *lineptr = top;
+          *pcapa = capa;
+        }
+        stream->flag |= error;
         return -1;
+      }
       break;
     }
 
@@ -26,6 +36,7 @@ ssize_t getline(char **lineptr, size_t *pcapa, FILE *stream) {
       if (reallocated == NULL) {
         *lineptr = top;
         *pcapa = capa;
+        stream->flag |= FF_ERROR;
         return -1;
       }
       top = reallocated;
@@ -43,5 +54,6 @@ ssize_t getline(char **lineptr, size_t *pcapa, FILE *stream) {
   top[size] = '\0';
   *lineptr = top;
   *pcapa = capa;
+  stream->flag |= error;
   return size;
 }
diff --git a/libsrc/stdio/stdin.c b/libsrc/stdio/stdin.c
index 6690272..1fce557 100644
--- a/libsrc/stdio/stdin.c
+++ b/libsrc/stdio/stdin.c
@@ -20,10 +20,13 @@ typedef struct OUTFILE {
 static int _fclose_std(void *cookie) {
   FILE *fp = cookie;
   // _remove_opened_file(fp);
-  (*fp->flush)(fp);
-  close(fp->fd);
+  int result = (*fp->flush)(fp);
+  if (close(fp->fd) != 0)
+    result = EOF;
   // free(fp);
-  return 0;
+  fp->wp = 0;  // Not to be flushed again on exit.
+  fp->flag &= ~(FF_READ | FF_WRITE);
+  return result;
 }
 
 static const cookie_io_functions_t kIof = {
diff --git a/libsrc/stdio/ungetc.c b/libsrc/stdio/ungetc.c
index dbc8a9a..a4a37b8 100644
--- a/libsrc/stdio/ungetc.c
+++ b/libsrc/stdio/ungetc.c
@@ -3,9 +3,9 @@
 #include "./_file.h"
 
 int ungetc(int c, FILE *fp) {
-  if (!(fp->flag & FF_READ))
+  if (!(fp->flag & FF_READ) || c == EOF || fp->unget_char != EOF)
     return EOF;
-  fp->unget_char = c;
+  fp->unget_char = (unsigned char)c;
   fp->flag &= ~FF_EOF;
-  return c;
+  return (unsigned char)c;
 }
diff --git a/libsrc/stdio/vfprintf.c b/libsrc/stdio/vfprintf.c
index 177faa9..40740a1 100644
--- a/libsrc/stdio/vfprintf.c
+++ b/libsrc/stdio/vfprintf.c
@@ -207,6 +207,11 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
 #define bufend  (buf + sizeof(buf))
   STATIC_ASSERT(sizeof(buf) >= (sizeof(long long) * CHAR_BIT + 2) / 3);
 
+  if (!(fp->flag & FF_WRITE))
+    return -1;
+  unsigned int error = fp->flag & FF_ERROR;
+  fp->flag &= ~FF_ERROR;
+
   const unsigned char *fmt = (const unsigned char*)fmt_;
   int c, i;
   int o;
@@ -386,5 +391,8 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
     }
   }
 
+  if (fp->flag & FF_ERROR)
+    o = -1;
+  fp->flag |= error;
   return o;
 }
-- 
2.43.0


From aa49f44c8cd513e38b10812ae61bb4eaef7ca6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 02/26] fix: libc memory streams: report growth failure, never
 write to a read stream's buffer, no allocation in vsnprintf

---
 libsrc/stdio/fmemopen.c       | 21 +++++++++++----------
 libsrc/stdio/open_memstream.c |  8 ++++++--
 libsrc/stdio/vsnprintf.c      | 15 ++++++++-------
 3 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/libsrc/stdio/fmemopen.c b/libsrc/stdio/fmemopen.c
index d962ffe..dcc4d72 100644
--- a/libsrc/stdio/fmemopen.c
+++ b/libsrc/stdio/fmemopen.c
@@ -9,7 +9,7 @@
 
 #define MINCAPA  (16)
 
-static bool _growmem(FILE *fp) {
+bool _growmem(FILE *fp) {
   int newsiz = fp->wcapa * 2;
   if (newsiz < MINCAPA)
     newsiz = MINCAPA;
@@ -40,9 +40,13 @@ static ssize_t _memread(void *cookie, char *buf, size_t size) {
 static ssize_t _memwrite(void *cookie, const char *buf, size_t size) {
   FILE *fp = cookie;
   for (size_t i = 0; i < size; ++i) {
-    if (fp->wp + 1 >= fp->wcapa &&
-        !((fp->flag & FF_GROWMEM) && _growmem(fp))) {
-      break;
+    if (fp->wp + 1 >= fp->wcapa) {
+      if (!(fp->flag & FF_GROWMEM))
+        break;
+      if (!_growmem(fp)) {
+        fp->flag |= FF_ERROR;
+        return i;
+      }
     }
     fp->wbuf[fp->wp++] = *buf++;
   }
@@ -51,7 +55,7 @@ static ssize_t _memwrite(void *cookie, const char *buf, size_t size) {
 
 static int _memflush(FILE *fp) {
   unsigned int wp = fp->wp;
-  if (wp < fp->wcapa) {
+  if ((fp->flag & FF_WRITE) && wp < fp->wcapa) {
     fp->wbuf[wp] = '\0';
   }
   return 0;
@@ -79,10 +83,9 @@ static int _memseek(void *cookie, off_t *offset, int origin) {
 
 static int _memclose(void *cookie) {
   FILE *fp = cookie;
-  _remove_opened_file(fp);
-  (*fp->flush)(fp);
+  int result = (*fp->flush)(fp);
   free(fp);
-  return 0;
+  return result;
 }
 
 void _fmemopen2(void *buf, size_t size, const char *mode, FILE *fp) {
@@ -113,8 +116,6 @@ void _fmemopen2(void *buf, size_t size, const char *mode, FILE *fp) {
   if (strchr(mode, 'b') != NULL)
     flag |= FF_BINARY;
   fp->flag = flag;
-
-  _add_opened_file(fp);
 }
 
 FILE *fmemopen(void *buf, size_t size, const char *mode) {
diff --git a/libsrc/stdio/open_memstream.c b/libsrc/stdio/open_memstream.c
index 3572977..cd428eb 100644
--- a/libsrc/stdio/open_memstream.c
+++ b/libsrc/stdio/open_memstream.c
@@ -1,8 +1,10 @@
 #include "stdio.h"
 
+#include "stdbool.h"
 #include "stdlib.h"
 #include "_file.h"
 
+extern bool _growmem(FILE *fp);
 extern void _fmemopen2(void *buf, size_t size, const char *mode, FILE *fp);
 
 typedef struct MEMFILE {
@@ -13,9 +15,11 @@ typedef struct MEMFILE {
 
 static int _memflush2(FILE *fp) {
   unsigned int wp = fp->wp;
-  if (wp < fp->wcapa) {
-    fp->wbuf[wp] = '\0';
+  if (wp >= fp->wcapa && !_growmem(fp)) {
+    fp->flag |= FF_ERROR;
+    return EOF;
   }
+  fp->wbuf[wp] = '\0';
   MEMFILE *memfp = (MEMFILE*)fp;
   if (memfp->pmem != NULL)
     *memfp->pmem = (char*)fp->wbuf;
diff --git a/libsrc/stdio/vsnprintf.c b/libsrc/stdio/vsnprintf.c
index 9bb94e2..4dbdabb 100644
--- a/libsrc/stdio/vsnprintf.c
+++ b/libsrc/stdio/vsnprintf.c
@@ -1,13 +1,14 @@
 #include "stdio.h"
-#include "unistd.h"
 #include "stdarg.h"
 
+#include "_file.h"
+
+extern void _fmemopen2(void *buf, size_t size, const char *mode, FILE *fp);
+
 int vsnprintf(char *out, size_t n, const char *fmt, va_list ap) {
-  int result = 0;
-  FILE *fp = fmemopen(out, n, "w");
-  if (fp != NULL) {
-    result = vfprintf(fp, fmt, ap);
-    fclose(fp);
-  }
+  FILE file;  // Not registered to opened files, so memory allocation is not required.
+  _fmemopen2(out, n, "w", &file);
+  int result = vfprintf(&file, fmt, ap);
+  (*file.flush)(&file);
   return result;
 }
-- 
2.43.0


From c5bcc566aeefb0e050b3de39bfa40f28692701ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 03/26] fix: libc exit: run handlers once even if exit is
 called or handlers are registered while exiting

---
 libsrc/crt0/_start.c         |  5 +++--
 libsrc/stdlib/__cxa_atexit.c | 11 +++++++----
 libsrc/stdlib/atexit.c       | 11 +++++++----
 libsrc/stdlib/exit.c         |  7 ++-----
 4 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/libsrc/crt0/_start.c b/libsrc/crt0/_start.c
index b156e3c..e003ad7 100644
--- a/libsrc/crt0/_start.c
+++ b/libsrc/crt0/_start.c
@@ -12,8 +12,9 @@ extern void (*__fini_array_start []) (void);  // __attribute__((weak));
 extern void (*__fini_array_end []) (void);  // __attribute__((weak));
 
 static void call_fini_funcs(void) {
-  for (void (**pp)(void) = __fini_array_start; pp < __fini_array_end; ++pp)
-    (*pp)();
+  static int index;  // `exit` might be called from a function.
+  while (&__fini_array_start[index] < __fini_array_end)
+    (*__fini_array_start[index++])();
 }
 
 static void start2(int argc, char *argv[], char *env[]) {
diff --git a/libsrc/stdlib/__cxa_atexit.c b/libsrc/stdlib/__cxa_atexit.c
index aab121a..c6adca8 100644
--- a/libsrc/stdlib/__cxa_atexit.c
+++ b/libsrc/stdlib/__cxa_atexit.c
@@ -1,4 +1,5 @@
 #include "stdlib.h"
+#include "stdbool.h"
 #include "_exit.h"
 
 #define MAX  (8)
@@ -11,11 +12,12 @@ typedef struct {
 
 static CxaAtexitBuf buf[MAX];
 static int count;
+static bool finished;
 
 void *__dso_handle;
 
 int __cxa_atexit(void (*func)(void*), void *arg, void *d) {
-  if (count >= MAX)
+  if (count >= MAX || finished)
     return 1;
   CxaAtexitBuf *p = &buf[count++];
   p->dtor = func;
@@ -25,10 +27,11 @@ int __cxa_atexit(void (*func)(void*), void *arg, void *d) {
 }
 
 static void call_cxa_atexit_funcs(void) {
-  for (CxaAtexitBuf *p = &buf[count]; p > buf; ) {
-    --p;
-    (*p->dtor)(p->arg);
+  while (count > 0) {
+    CxaAtexitBuf e = buf[--count];
+    (*e.dtor)(e.arg);
   }
+  finished = true;
 }
 
 __attribute__((constructor))
diff --git a/libsrc/stdlib/atexit.c b/libsrc/stdlib/atexit.c
index 8bdc99c..8f27984 100644
--- a/libsrc/stdlib/atexit.c
+++ b/libsrc/stdlib/atexit.c
@@ -1,4 +1,5 @@
 #include "stdlib.h"
+#include "stdbool.h"
 #include "_exit.h"
 
 #define MAX  (8)
@@ -7,19 +8,21 @@ typedef void (*AtexitFunc)(void);
 
 static AtexitFunc buf[MAX];
 static int count;
+static bool finished;
 
 int atexit(void (*func)(void)) {
-  if (count >= MAX)
+  if (count >= MAX || finished)
     return 1;
   buf[count++] = func;
   return 0;
 }
 
 static void call_atexit_funcs(void) {
-  for (AtexitFunc *p = &buf[count]; p > buf; ) {
-    --p;
-    (*p)();
+  while (count > 0) {
+    AtexitFunc func = buf[--count];
+    (*func)();
   }
+  finished = true;
 }
 
 __attribute__((constructor))
diff --git a/libsrc/stdlib/exit.c b/libsrc/stdlib/exit.c
index b1b0762..b917e72 100644
--- a/libsrc/stdlib/exit.c
+++ b/libsrc/stdlib/exit.c
@@ -23,11 +23,8 @@ static void proc_exit(int code) {
 #endif
 
 void exit(int code) {
-  // TODO: Guard multiple calls
-
-  OnExitChain *chain = __on_exit_chain;
-  __on_exit_chain = NULL;
-  for (; chain != NULL; chain = chain->next) {
+  // If `exit` is called from an exit function, the rest are called from there.
+  for (OnExitChain *chain; (chain = __on_exit_chain) != NULL; __on_exit_chain = chain->next) {
     chain->func();
   }
 
-- 
2.43.0


From 3b91de27ad14340b71230b1902f9a4f4e17fa9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 04/26] fix: libc malloc/calloc: reject impossible sizes;
 strndup: do not read past the terminator

---
 libsrc/stdlib/_malloc.h | 4 +++-
 libsrc/stdlib/calloc.c  | 2 ++
 libsrc/stdlib/malloc.c  | 4 ++++
 libsrc/string/strndup.c | 3 +++
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/libsrc/stdlib/_malloc.h b/libsrc/stdlib/_malloc.h
index 1589908..af0f11a 100644
--- a/libsrc/stdlib/_malloc.h
+++ b/libsrc/stdlib/_malloc.h
@@ -1,11 +1,13 @@
 #pragma once
 
+#include "stddef.h"  // size_t
+
 typedef long Align;
 
 typedef union header {
   struct {
     union header *ptr;
-    unsigned int size;
+    size_t size;
   } s;
   Align x;
 } Header;
diff --git a/libsrc/stdlib/calloc.c b/libsrc/stdlib/calloc.c
index 5b53244..4af3ddd 100644
--- a/libsrc/stdlib/calloc.c
+++ b/libsrc/stdlib/calloc.c
@@ -3,6 +3,8 @@
 
 void *calloc(size_t nmemb, size_t size) {
   size_t nbytes = nmemb * size;
+  if (size != 0 && nbytes / size != nmemb)
+    return NULL;
   void *adr = malloc(nbytes);
   if (adr != NULL)
     memset(adr, 0, nbytes);
diff --git a/libsrc/stdlib/malloc.c b/libsrc/stdlib/malloc.c
index 898482e..cb73ffd 100644
--- a/libsrc/stdlib/malloc.c
+++ b/libsrc/stdlib/malloc.c
@@ -6,6 +6,7 @@
 // The C programming Language, 2nd ed.  Section 8.7.
 
 #define PAGESIZE  (4096)
+#define MAX_BYTES  (((size_t)-1 >> 1) - PAGESIZE * 2)
 
 static Header base = {.s={.ptr=&base, .size=0}};
 static Header *freep = &base;
@@ -52,6 +53,9 @@ void *malloc(size_t nbytes) {
   Header *p, *prevp;
   size_t nunits;
 
+  if (nbytes > MAX_BYTES)
+    return 0;
+
   nunits = (nbytes + sizeof(Header) - 1) / sizeof(Header) + 1;
   prevp = freep;
   for (p = prevp->s.ptr; ; prevp = p, p = p->s.ptr) {
diff --git a/libsrc/string/strndup.c b/libsrc/string/strndup.c
index ce14001..010eccf 100644
--- a/libsrc/string/strndup.c
+++ b/libsrc/string/strndup.c
@@ -2,6 +2,9 @@
 #include "stdlib.h"  // malloc
 
 char *strndup(const char *str, size_t size) {
+  const char *end = memchr(str, '\0', size);
+  if (end != NULL)
+    size = end - str;
   char *dup = malloc(size + 1);
   if (dup != NULL) {
     memcpy(dup, str, size);
-- 
2.43.0


From dcc8552c4a59f208d58f1f3c243a1bdba4d77d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 05/26] fix: libc mkstemps: validate template first, retry on
 collision; getrandom: report failure

---
 libsrc/stdlib/getrandom.c | 10 +++++++---
 libsrc/stdlib/mkstemps.c  | 30 +++++++++++++++++++-----------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/libsrc/stdlib/getrandom.c b/libsrc/stdlib/getrandom.c
index f22cf13..c5a3a65 100644
--- a/libsrc/stdlib/getrandom.c
+++ b/libsrc/stdlib/getrandom.c
@@ -1,11 +1,15 @@
 #include "sys/random.h"
 
 #if defined(__WASM)
+#include "errno.h"
 #include "../_wasm/wasi.h"
 
 ssize_t getrandom(void *buf, size_t buflen, unsigned int flags) {
   (void)flags;
-  random_get(buf, buflen);
+  if (random_get(buf, buflen) != 0) {
+    errno = EIO;
+    return -1;
+  }
   return buflen;
 }
 
@@ -14,9 +18,9 @@ ssize_t getrandom(void *buf, size_t buflen, unsigned int flags) {
 #include "unistd.h"  // close
 
 ssize_t getrandom(void *buf, size_t buflen, unsigned int flags) {
-  ssize_t size = 0;
+  ssize_t size = -1;
   int fd = open(flags & GRND_RANDOM ? "/dev/random" : "/dev/urandom", O_RDONLY);
-  if (fd != 1) {
+  if (fd >= 0) {
     size = read(fd, buf, buflen);
     close(fd);
   }
diff --git a/libsrc/stdlib/mkstemps.c b/libsrc/stdlib/mkstemps.c
index 3a44f89..43285b1 100644
--- a/libsrc/stdlib/mkstemps.c
+++ b/libsrc/stdlib/mkstemps.c
@@ -10,6 +10,7 @@ int mkstemps(char *tmpl, int suffixlen) {
 #define LETTERS (10 + 26 + 26)
   static const char kLetters[LETTERS] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
   const int LEN = 6;
+  const int ATTEMPTS = LETTERS * LETTERS * LETTERS;
   const uint32_t RNDMAX = ((1UL << 31) / LETTERS) * LETTERS;
 
   static bool initialized;
@@ -24,18 +25,25 @@ int mkstemps(char *tmpl, int suffixlen) {
     return -1;
   }
   char *p = &tmpl[len - suffixlen - LEN];
-  for (int j = 0; j < LEN; ++j) {
-    if (*p != 'X') {
-      errno = EINVAL;
-      return -1;
-    }
-    uint32_t r;
-    do {
-      r = nrand48(xsubi);
-    } while (r >= RNDMAX);
-    *p++ = kLetters[r % LETTERS];
+  if (strncmp(p, "XXXXXX", LEN) != 0) {
+    errno = EINVAL;
+    return -1;
   }
 
-  return open(tmpl, O_RDWR | O_CREAT | O_EXCL | O_TRUNC, S_IRUSR | S_IWUSR);
+  int fd = -1;
+  for (int i = 0; i < ATTEMPTS; ++i) {
+    for (int j = 0; j < LEN; ++j) {
+      uint32_t r;
+      do {
+        r = nrand48(xsubi);
+      } while (r >= RNDMAX);
+      p[j] = kLetters[r % LETTERS];
+    }
+
+    fd = open(tmpl, O_RDWR | O_CREAT | O_EXCL | O_TRUNC, S_IRUSR | S_IWUSR);
+    if (fd >= 0 || errno != EEXIST)
+      break;
+  }
+  return fd;
 #undef LETTERS
 }
-- 
2.43.0


From d703d9d22b6b928f96dced9b38c0dd54494b49a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 06/26] fix: libc write, fork, time, getcwd, isatty: report
 kernel errors through errno

---
 libsrc/unistd/fork.c   | 1 +
 libsrc/unistd/getcwd.c | 2 --
 libsrc/unistd/isatty.c | 1 +
 libsrc/unistd/time.c   | 1 +
 libsrc/unistd/write.c  | 1 +
 5 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libsrc/unistd/fork.c b/libsrc/unistd/fork.c
index db29f05..35844e5 100644
--- a/libsrc/unistd/fork.c
+++ b/libsrc/unistd/fork.c
@@ -5,6 +5,7 @@
 pid_t fork(void) {
   pid_t ret;
   SYSCALL_RET(__NR_fork, ret);
+  SET_ERRNO(ret);
   return ret;
 }
 
diff --git a/libsrc/unistd/getcwd.c b/libsrc/unistd/getcwd.c
index c76c12e..1ca56f3 100644
--- a/libsrc/unistd/getcwd.c
+++ b/libsrc/unistd/getcwd.c
@@ -1,5 +1,4 @@
 #include "unistd.h"
-#include "errno.h"
 #include "stdlib.h"  // malloc
 
 #if defined(__APPLE__)
@@ -28,7 +27,6 @@ char *getcwd(char *buffer, size_t size) {
   }
   int result = _getcwd(buffer, size);
   if (result < 0) {
-    errno = -result;
     free(allocated);
     return NULL;
   }
diff --git a/libsrc/unistd/isatty.c b/libsrc/unistd/isatty.c
index a365021..5608bc1 100644
--- a/libsrc/unistd/isatty.c
+++ b/libsrc/unistd/isatty.c
@@ -1,5 +1,6 @@
 #include "unistd.h"
 #include "sys/ioctl.h"  // termio
+#include "_syscall.h"
 
 int isatty(int fd) {
 #if defined(__NR_ioctl)
diff --git a/libsrc/unistd/time.c b/libsrc/unistd/time.c
index ce67be4..6d39ad1 100644
--- a/libsrc/unistd/time.c
+++ b/libsrc/unistd/time.c
@@ -5,6 +5,7 @@
 time_t time(time_t *timer) {
   time_t ret;
   SYSCALL_RET(__NR_time, ret);
+  SET_ERRNO(ret);
   return ret;
 }
 
diff --git a/libsrc/unistd/write.c b/libsrc/unistd/write.c
index 2cab80d..547be69 100644
--- a/libsrc/unistd/write.c
+++ b/libsrc/unistd/write.c
@@ -6,6 +6,7 @@
 ssize_t write(int fd, const void *str, size_t len) {
   ssize_t ret;
   SYSCALL_RET(__NR_write, ret);
+  SET_ERRNO(ret);
   return ret;
 }
 
-- 
2.43.0


From 6b3e294d9f25f26f328e8f3c16d7601dde13c4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 07/26] fix: wasm libc: report refused host calls, honour
 O_EXCL and O_APPEND, keep fd_seek result in 64 bits

---
 libsrc/_wasm/crt0/__main_void.c     |  5 +++--
 libsrc/_wasm/unistd/_set_stat.c     |  2 ++
 libsrc/_wasm/unistd/brk.c           | 11 +++++++----
 libsrc/_wasm/unistd/clock_gettime.c |  5 ++++-
 libsrc/_wasm/unistd/close.c         |  6 +++++-
 libsrc/_wasm/unistd/getcwd.c        | 13 ++++++-------
 libsrc/_wasm/unistd/lseek.c         |  2 +-
 libsrc/_wasm/unistd/mkdir.c         |  6 ++++--
 libsrc/_wasm/unistd/open.c          | 16 +++++++++++++---
 libsrc/_wasm/unistd/rmdir.c         |  5 +++--
 libsrc/_wasm/unistd/stat.c          |  8 +++++---
 libsrc/_wasm/unistd/time.c          |  6 +++++-
 libsrc/_wasm/unistd/unlink.c        |  5 +++--
 libsrc/_wasm/wasi.h                 |  5 ++++-
 14 files changed, 65 insertions(+), 30 deletions(-)

diff --git a/libsrc/_wasm/crt0/__main_void.c b/libsrc/_wasm/crt0/__main_void.c
index c37434c..cd5a5af 100644
--- a/libsrc/_wasm/crt0/__main_void.c
+++ b/libsrc/_wasm/crt0/__main_void.c
@@ -12,8 +12,9 @@ int __main_void(void) {
   if (r == 0) {
     argv = alloca(sizeof(char*) * (argc + 1) + len);
     char *str = ((char*)argv) + sizeof(char*) * (argc + 1);
-    args_get(argv, str);
-  } else {  // Ignore error.
+    r = args_get(argv, str);
+  }
+  if (r != 0) {  // Ignore error.
     argc = 1;
     argv = alloca(sizeof(char*) * (argc + 1));
     argv[0] = "*";
diff --git a/libsrc/_wasm/unistd/_set_stat.c b/libsrc/_wasm/unistd/_set_stat.c
index bdc9a60..a1e7fa6 100644
--- a/libsrc/_wasm/unistd/_set_stat.c
+++ b/libsrc/_wasm/unistd/_set_stat.c
@@ -1,4 +1,5 @@
 #include "sys/stat.h"
+#include "string.h"  // memset
 #include "../wasi.h"
 
 void _set_stat(Filestat *fs, struct stat *st) {
@@ -13,6 +14,7 @@ void _set_stat(Filestat *fs, struct stat *st) {
   case FILETYPE_SYMBOLIC_LINK:  mode = S_IFLNK; break;
   }
 
+  memset(st, 0, sizeof(*st));
   st->st_dev = fs->dev;
   st->st_ino = fs->ino;
   st->st_mode = mode;
diff --git a/libsrc/_wasm/unistd/brk.c b/libsrc/_wasm/unistd/brk.c
index f32fdc7..ff4f341 100644
--- a/libsrc/_wasm/unistd/brk.c
+++ b/libsrc/_wasm/unistd/brk.c
@@ -7,21 +7,24 @@ extern void *__curbrk;
 #define HEAP_ALIGN  (8)
 #define MEMORY_PAGE_BIT  (16)
 
-static void _growTo(void *ptr) {
-  size_t page = (((size_t)ptr) + ((1 << MEMORY_PAGE_BIT) - 1)) >> MEMORY_PAGE_BIT;
+static int _growTo(void *ptr) {
+  size_t page = ((((size_t)ptr) - 1) >> MEMORY_PAGE_BIT) + 1;
   size_t count = __builtin_memory_size();
   if (page > count) {
     const size_t grow = page - count;
-    __builtin_memory_grow(grow);
+    if (__builtin_memory_grow(grow) == (size_t)-1)
+      return EOF;
   }
+  return 0;
 }
 
 int brk(void *addr) {
   if (addr <= __curbrk)
     return EOF;
   void *p = (void*)((((intptr_t)addr) + (HEAP_ALIGN - 1)) & -HEAP_ALIGN);
+  if (p < addr || _growTo(p) != 0)
+    return EOF;
   __curbrk = p;
-  _growTo(p);
   return 0;
 }
 
diff --git a/libsrc/_wasm/unistd/clock_gettime.c b/libsrc/_wasm/unistd/clock_gettime.c
index b4fec0c..6e66934 100644
--- a/libsrc/_wasm/unistd/clock_gettime.c
+++ b/libsrc/_wasm/unistd/clock_gettime.c
@@ -11,7 +11,10 @@ int clock_gettime(clockid_t clk_id, struct timespec *tp) {
   }
 
   uint64_t time;
-  clock_time_get(clk_id, 1, &time);
+  if (clock_time_get(clk_id, 1, &time) != 0) {
+    errno = EINVAL;
+    return -1;
+  }
   tp->tv_sec = time / 1000000000ULL;
   tp->tv_nsec = time % 1000000000ULL;
   return 0;
diff --git a/libsrc/_wasm/unistd/close.c b/libsrc/_wasm/unistd/close.c
index 3b2a9d4..92ab468 100644
--- a/libsrc/_wasm/unistd/close.c
+++ b/libsrc/_wasm/unistd/close.c
@@ -1,6 +1,10 @@
 #include "unistd.h"
+#include "errno.h"
 #include "../wasi.h"
 
 int close(int fd) {
-  return fd_close(fd);
+  if (fd_close(fd) == 0)
+    return 0;
+  errno = EBADF;  // TODO
+  return -1;
 }
diff --git a/libsrc/_wasm/unistd/getcwd.c b/libsrc/_wasm/unistd/getcwd.c
index 940bf82..a139ae1 100644
--- a/libsrc/_wasm/unistd/getcwd.c
+++ b/libsrc/_wasm/unistd/getcwd.c
@@ -5,13 +5,12 @@
 
 const char *__cwd = ".";
 
-#define MIN(a, b)  ((a) < (b) ? (a) : (b))
-
-static inline size_t GETCWD(char *dst, size_t siz) {
-  size_t _s = strlen(__cwd);
-  size_t _m = MIN(_s + 1, siz);
-  strncpy(dst, __cwd, _m);
-  return _m;
+static inline int GETCWD(char *dst, size_t siz) {
+  size_t _s = strlen(__cwd) + 1;
+  if (siz < _s)
+    return -ERANGE;
+  memcpy(dst, __cwd, _s);
+  return _s;
 }
 
 char *getcwd(char *buffer, size_t size) {
diff --git a/libsrc/_wasm/unistd/lseek.c b/libsrc/_wasm/unistd/lseek.c
index f47b385..6f37d7c 100644
--- a/libsrc/_wasm/unistd/lseek.c
+++ b/libsrc/_wasm/unistd/lseek.c
@@ -3,7 +3,7 @@
 #include "../wasi.h"
 
 off_t lseek(int fd, off_t offset, int whence) {
-  size_t size;
+  uint64_t size;
   int result = fd_seek(fd, offset, whence, &size);
   if (result == 0)
     return size;
diff --git a/libsrc/_wasm/unistd/mkdir.c b/libsrc/_wasm/unistd/mkdir.c
index c3f32a1..b2fcdb3 100644
--- a/libsrc/_wasm/unistd/mkdir.c
+++ b/libsrc/_wasm/unistd/mkdir.c
@@ -10,10 +10,12 @@ int mkdir(const char *fn, mode_t mode) {
   size_t fnlen = strlen(fn);
   for (int base_fd = 3; base_fd < __max_preopen_fd; ++base_fd) {
     Prestat prestat;
-    fd_prestat_get(base_fd, &prestat);
+    if (fd_prestat_get(base_fd, &prestat) != 0)
+      continue;
     size_t l = prestat.u.dir.pr_name_len;  // Includes '\0' or not, depending on the environment,
     char buf[256];
-    fd_prestat_dir_name(base_fd, buf, l);
+    if (l >= sizeof(buf) || fd_prestat_dir_name(base_fd, buf, l) != 0)
+      continue;
     buf[l] = '\0';
 
     if ((*fn == '/' && *buf != '/') ||
diff --git a/libsrc/_wasm/unistd/open.c b/libsrc/_wasm/unistd/open.c
index bed3f42..e997bf2 100644
--- a/libsrc/_wasm/unistd/open.c
+++ b/libsrc/_wasm/unistd/open.c
@@ -32,16 +32,23 @@ int open(const char *fn, int flag, ...) {
       oflags |= OFLAGS_CREAT;
     if (flag & O_TRUNC)
       oflags |= OFLAGS_TRUNC;
+    if (flag & O_EXCL)
+      oflags |= OFLAGS_EXCL;
+    if (flag & O_APPEND)
+      fdflags |= FDFLAGS_APPEND;
   }
 
   // Search from preopens
+  errno = ENOENT;
   size_t fnlen = strlen(fn);
   for (int base_fd = 3; base_fd < __max_preopen_fd; ++base_fd) {
     Prestat prestat;
-    fd_prestat_get(base_fd, &prestat);
+    if (fd_prestat_get(base_fd, &prestat) != 0)
+      continue;
     size_t l = prestat.u.dir.pr_name_len;  // Includes '\0' or not, depending on the environment,
     char buf[256];
-    fd_prestat_dir_name(base_fd, buf, l);
+    if (l >= sizeof(buf) || fd_prestat_dir_name(base_fd, buf, l) != 0)
+      continue;
     buf[l] = '\0';
 
     if ((*fn == '/' && *buf != '/') ||
@@ -63,7 +70,10 @@ int open(const char *fn, int flag, ...) {
                                 fs_rights_inheriting, fdflags, &opened);
     if (result == 0)
       return opened;
+    if (result == WASI_EEXIST) {
+      errno = EEXIST;
+      return -1;
+    }
   }
-  errno = ENOENT;  // (flag & O_CREAT) ? EEXIST, or something.
   return -1;
 }
diff --git a/libsrc/_wasm/unistd/rmdir.c b/libsrc/_wasm/unistd/rmdir.c
index 893a7c8..507346a 100644
--- a/libsrc/_wasm/unistd/rmdir.c
+++ b/libsrc/_wasm/unistd/rmdir.c
@@ -11,11 +11,12 @@ int rmdir(const char *fn) {
   for (int base_fd = 3; base_fd < __max_preopen_fd; ++base_fd) {
     Prestat prestat;
     if (fd_prestat_get(base_fd, &prestat) != 0)
-      break;
+      continue;
 
     size_t l = prestat.u.dir.pr_name_len;  // Includes '\0' or not, depending on the environment,
     char buf[256];
-    fd_prestat_dir_name(base_fd, buf, l);
+    if (l >= sizeof(buf) || fd_prestat_dir_name(base_fd, buf, l) != 0)
+      continue;
     buf[l] = '\0';
 
     if ((*fn == '/' && *buf != '/') ||
diff --git a/libsrc/_wasm/unistd/stat.c b/libsrc/_wasm/unistd/stat.c
index c8b41c5..45f315c 100644
--- a/libsrc/_wasm/unistd/stat.c
+++ b/libsrc/_wasm/unistd/stat.c
@@ -8,14 +8,16 @@ extern int __max_preopen_fd;
 extern void _set_stat(Filestat *fs, struct stat *st);
 
 int stat(const char *fn, struct stat *st) {
-  memset(st, 0, sizeof(st));
+  memset(st, 0, sizeof(*st));
   size_t fnlen = strlen(fn);
   for (int base_fd = 3; base_fd < __max_preopen_fd; ++base_fd) {
     Prestat prestat;
-    fd_prestat_get(base_fd, &prestat);
+    if (fd_prestat_get(base_fd, &prestat) != 0)
+      continue;
     size_t l = prestat.u.dir.pr_name_len;  // Includes '\0' or not, depending on the environment,
     char buf[256];
-    fd_prestat_dir_name(base_fd, buf, l);
+    if (l >= sizeof(buf) || fd_prestat_dir_name(base_fd, buf, l) != 0)
+      continue;
     buf[l] = '\0';
 
     if ((*fn == '/' && *buf != '/') ||
diff --git a/libsrc/_wasm/unistd/time.c b/libsrc/_wasm/unistd/time.c
index 0722f37..b114497 100644
--- a/libsrc/_wasm/unistd/time.c
+++ b/libsrc/_wasm/unistd/time.c
@@ -1,11 +1,15 @@
 #include "time.h"
+#include "errno.h"
 #include "stddef.h"  // NULL
 #include "stdint.h"
 #include "../wasi.h"
 
 time_t time(time_t *timer) {
   uint64_t t;
-  clock_time_get(CLOCK_REALTIME, 100000000ULL, &t);
+  if (clock_time_get(CLOCK_REALTIME, 100000000ULL, &t) != 0) {
+    errno = EINVAL;
+    return -1;
+  }
   uint64_t sec = t / 1000000000ULL;
   if (timer != NULL)
     *timer = sec;
diff --git a/libsrc/_wasm/unistd/unlink.c b/libsrc/_wasm/unistd/unlink.c
index 8b67776..e39fc59 100644
--- a/libsrc/_wasm/unistd/unlink.c
+++ b/libsrc/_wasm/unistd/unlink.c
@@ -11,11 +11,12 @@ int unlink(const char *fn) {
   for (int base_fd = 3; base_fd < __max_preopen_fd; ++base_fd) {
     Prestat prestat;
     if (fd_prestat_get(base_fd, &prestat) != 0)
-      break;
+      continue;
 
     size_t l = prestat.u.dir.pr_name_len;  // Includes '\0' or not, depending on the environment,
     char buf[256];
-    fd_prestat_dir_name(base_fd, buf, l);
+    if (l >= sizeof(buf) || fd_prestat_dir_name(base_fd, buf, l) != 0)
+      continue;
     buf[l] = '\0';
 
     if ((*fn == '/' && *buf != '/') ||
diff --git a/libsrc/_wasm/wasi.h b/libsrc/_wasm/wasi.h
index 5e21730..b81a97c 100644
--- a/libsrc/_wasm/wasi.h
+++ b/libsrc/_wasm/wasi.h
@@ -5,6 +5,9 @@
 
 #define WASI_MODULE  __attribute__((import_module("wasi_snapshot_preview1")))
 
+// Errno
+#define WASI_EEXIST  (20)
+
 // Fdflags
 #define FDFLAGS_APPEND           (1 << 0)
 #define FDFLAGS_DSYNC            (1 << 1)
@@ -118,7 +121,7 @@ WASI_MODULE int path_filestat_get(int fd, int flags, const char *path, size_t pa
 WASI_MODULE int fd_read(int fd, const void *iov, int count, size_t *out);
 WASI_MODULE int fd_write(int fd, const void *iov, int count, size_t *out);
 WASI_MODULE int fd_close(int fd);
-WASI_MODULE int fd_seek(int fd, int64_t offset, int whence, size_t *psize);
+WASI_MODULE int fd_seek(int fd, int64_t offset, int whence, uint64_t *psize);
 WASI_MODULE int fd_filestat_get(int fd, Filestat *out);
 
 WASI_MODULE int clock_time_get(int clockid, uint64_t precision, uint64_t *out);
-- 
2.43.0


From 66d0eb5a3daa71866067af50126535e74195494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:41 +0000
Subject: [PATCH 08/26] fix: util: check every allocation, read error and
 change_ext buffer size; helpers for output files

---
 src/util/table.c | 40 ++++++++++----------
 src/util/util.c  | 98 +++++++++++++++++++++++++++++++++---------------
 src/util/util.h  |  5 +++
 3 files changed, 93 insertions(+), 50 deletions(-)

diff --git a/src/util/table.c b/src/util/table.c
index b558ca0..938ee4a 100644
--- a/src/util/table.c
+++ b/src/util/table.c
@@ -1,8 +1,18 @@
 #include "table.h"
 
+#include <stdio.h>
 #include <stdlib.h>  // malloc
 #include <string.h>
 
+static void *alloc(size_t size) {
+  void *p = malloc(size);
+  if (p == NULL) {
+    fprintf(stderr, "memory overflow\n");
+    exit(1);
+  }
+  return p;
+}
+
 // Hash
 
 static uint32_t hash_string(const char *key, int length) {
@@ -43,23 +53,16 @@ const Name *alloc_name(const char *begin, const char *end, bool make_copy) {
   const Name *name = find_name_table(begin, bytes, hash);
   if (name == NULL) {
     if (make_copy) {
-      char *new_str = malloc(bytes);
-      if (new_str == NULL)
-        return NULL;
+      char *new_str = alloc(bytes > 0 ? bytes : 1);
       memcpy(new_str, begin, bytes);
       begin = new_str;
     }
-    Name *new_name = malloc(sizeof(*new_name));
-    if (new_name == NULL) {
-      if (make_copy)
-        free((void*)begin);
-    } else {
-      new_name->chars = begin;
-      new_name->bytes = bytes;
-      new_name->hash = hash;
-      table_put(&name_table, new_name, new_name);
-      name = new_name;
-    }
+    Name *new_name = alloc(sizeof(*new_name));
+    new_name->chars = begin;
+    new_name->bytes = bytes;
+    new_name->hash = hash;
+    table_put(&name_table, new_name, new_name);
+    name = new_name;
   }
   return name;
 }
@@ -88,9 +91,7 @@ static TableEntry *find_entry(TableEntry *entries, int capacity, const Name *key
 }
 
 static void adjust_capacity(Table *table, int new_capacity) {
-  TableEntry *new_entries = malloc(sizeof(TableEntry) * new_capacity);
-  if (new_entries == NULL)
-    return;
+  TableEntry *new_entries = alloc(sizeof(TableEntry) * new_capacity);
   for (int i = 0; i < new_capacity; ++i) {
     TableEntry *entry = &new_entries[i];
     entry->key = NULL;
@@ -118,9 +119,8 @@ static void adjust_capacity(Table *table, int new_capacity) {
 }
 
 Table *alloc_table(void) {
-  Table *table = malloc(sizeof(*table));
-  if (table != NULL)
-    table_init(table);
+  Table *table = alloc(sizeof(*table));
+  table_init(table);
   return table;
 }
 
diff --git a/src/util/util.c b/src/util/util.c
index d4d1ea6..dfaa0a4 100644
--- a/src/util/util.c
+++ b/src/util/util.c
@@ -94,6 +94,17 @@ void *realloc_or_die(void *ptr, size_t size) {
   return p;
 }
 
+char *strdup_or_die(const char *str) {
+  return strndup_or_die(str, strlen(str));
+}
+
+char *strndup_or_die(const char *str, size_t len) {
+  char *p = malloc_or_die(len + 1);
+  memcpy(p, str, len);
+  p[len] = '\0';
+  return p;
+}
+
 const Name *alloc_label(void) {
   static int label_no;
   ++label_no;
@@ -104,6 +115,8 @@ const Name *alloc_label(void) {
 
 ssize_t getline_chomp(char **lineptr, size_t *n, FILE *stream) {
   ssize_t len = getline(lineptr, n, stream);
+  if (len == -1 && !feof(stream))
+    error("read error");
   if (len > 0) {
     char *line = *lineptr;
     // Chomp CR(\r), LF(\n), CR+LF
@@ -123,10 +136,7 @@ static ssize_t getline_cat(char **lineptr, size_t *n, FILE *stream, size_t curle
     return -1;
   if (len > 0) {
     char *oldline = *lineptr;
-    char *reallocated = realloc(oldline, curlen + len + 1);
-    if (reallocated == NULL)
-      return -1;
-
+    char *reallocated = realloc_or_die(oldline, curlen + len + 1);
     memcpy(reallocated + curlen, nextline, len + 1);
     *lineptr = reallocated;
     *n = curlen + len;  // '\0' is not included.
@@ -244,19 +254,17 @@ char *change_ext(const char *path, const char *ext) {
   const char *q = strrchr(p, '.');
   size_t len = q != NULL ? (size_t)(q - path) : strlen(path);
   size_t ext_len = strlen(ext);
-  char *s = malloc(len + 1 + ext_len);
-  if (s != NULL) {
-    memcpy(s, path, len);
-    s[len] = '.';
-    strcpy(s + (len + 1), ext);
-  }
+  char *s = malloc_or_die(len + 1 + ext_len + 1);
+  memcpy(s, path, len);
+  s[len] = '.';
+  strcpy(s + (len + 1), ext);
   return s;
 }
 
 void put_padding(FILE *fp, long start) {
   long cur = ftell(fp);
   if (cur < 0)
-    return;  // TODO: error.
+    error("Failed to write");
   if (start > cur) {
     long size = start - cur;
     for (long i = 0; i < size; ++i)
@@ -269,6 +277,40 @@ bool is_file(const char *path) {
   return stat(path, &st) == 0 && S_ISREG(st.st_mode);  // Include symbolic link, too.
 }
 
+static const char *unfinished_outputs[2];
+static int unfinished_output_count;
+
+static void remove_unfinished_outputs(void) {
+  for (int i = 0; i < unfinished_output_count; ++i) {
+    const char *path = unfinished_outputs[i];
+    if (is_file(path))
+      remove(path);
+  }
+}
+
+void add_unfinished_output(const char *path) {
+  static bool registered;
+  assert(unfinished_output_count < (int)ARRAY_SIZE(unfinished_outputs));
+  unfinished_outputs[unfinished_output_count++] = path;
+  if (!registered) {
+    if (atexit(remove_unfinished_outputs) != 0) {
+      remove_unfinished_outputs();
+      error("atexit failed");
+    }
+    registered = true;
+  }
+}
+
+void finish_outputs(void) {
+  unfinished_output_count = 0;
+}
+
+void close_output(FILE *fp) {
+  bool failed = ferror(fp) != 0;
+  if ((fp == stdout ? fflush(fp) : fclose(fp)) != 0 || failed)
+    error("Failed to write output");
+}
+
 void show_version(const char *exe) {
   if (exe != NULL)
     printf("%s %s\n", exe, VERSION);
@@ -574,13 +616,11 @@ bool sb_empty(StringBuffer *sb) {
 }
 
 void sb_insert(StringBuffer *sb, int pos, const char *start, const char *end) {
-  StringElement *elem = malloc(sizeof(*elem));
-  if (elem != NULL) {
-    elem->start = start;
-    elem->len = end != NULL ? (size_t)(end - start) : strlen(start);
-    assert(0 <= pos && pos <= sb->elems->len);
-    vec_insert(sb->elems, pos, elem);
-  }
+  StringElement *elem = malloc_or_die(sizeof(*elem));
+  elem->start = start;
+  elem->len = end != NULL ? (size_t)(end - start) : strlen(start);
+  assert(0 <= pos && pos <= sb->elems->len);
+  vec_insert(sb->elems, pos, elem);
 }
 
 char *sb_join(StringBuffer *sb, const char *separator) {
@@ -594,20 +634,18 @@ char *sb_join(StringBuffer *sb, const char *separator) {
   if (count > 0 && sepalen > 0)
     total_len += sepalen * (count - 1);
 
-  char *str = malloc(total_len + 1);
-  if (str != NULL) {
-    char *p = str;
-    for (int i = 0; i < count; ++i) {
-      if (i > 0 && sepalen > 0) {
-        memcpy(p, separator, sepalen);
-        p += sepalen;
-      }
-      StringElement *elem = sb->elems->data[i];
-      memcpy(p, elem->start, elem->len);
-      p += elem->len;
+  char *str = malloc_or_die(total_len + 1);
+  char *p = str;
+  for (int i = 0; i < count; ++i) {
+    if (i > 0 && sepalen > 0) {
+      memcpy(p, separator, sepalen);
+      p += sepalen;
     }
-    *p = '\0';
+    StringElement *elem = sb->elems->data[i];
+    memcpy(p, elem->start, elem->len);
+    p += elem->len;
   }
+  *p = '\0';
   return str;
 }
 
diff --git a/src/util/util.h b/src/util/util.h
index 8159a24..dabd1f8 100644
--- a/src/util/util.h
+++ b/src/util/util.h
@@ -32,6 +32,8 @@ void *read_or_die(FILE *fp, void *buf, long offset, size_t size, const char *msg
 void *malloc_or_die(size_t size);
 void *calloc_or_die(size_t size);  // No `count` argument.
 void *realloc_or_die(void *ptr, size_t size);
+char *strdup_or_die(const char *str);
+char *strndup_or_die(const char *str, size_t len);
 const Name *alloc_label(void);
 ssize_t getline_chomp(char **lineptr, size_t *n, FILE *stream);
 ssize_t getline_cont(char **lineptr, size_t *n, FILE *stream, int *plineno);
@@ -42,6 +44,9 @@ char *get_ext(const char *filename);
 char *change_ext(const char *path, const char *ext);
 void put_padding(FILE *fp, long start);
 bool is_file(const char *path);
+void add_unfinished_output(const char *path);  // Removed at exit, unless finished.
+void finish_outputs(void);
+void close_output(FILE *fp);  // Die if some of the output could not be written.
 
 void show_version(const char *exe);
 
-- 
2.43.0


From 25ef48323de8fdf7ef888fbc9cb4479bf0ca1fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:41 +0000
Subject: [PATCH 09/26] fix: cpp, cc1: report failed reads, opens and writes
 instead of damaged output

---
 src/cc/cc1.c            |  1 +
 src/cc/frontend/lexer.c |  2 +-
 src/cpp/cpp.c           |  1 +
 src/cpp/preprocessor.c  | 30 ++++++++++++++++++------------
 4 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/cc/cc1.c b/src/cc/cc1.c
index 9bc7630..121fdf1 100644
--- a/src/cc/cc1.c
+++ b/src/cc/cc1.c
@@ -177,6 +177,7 @@ int main(int argc, char *argv[]) {
 
   gen(toplevel);
   emit_code(toplevel);
+  close_output(stdout);
 
   return 0;
 }
diff --git a/src/cc/frontend/lexer.c b/src/cc/frontend/lexer.c
index c466523..5db0431 100644
--- a/src/cc/frontend/lexer.c
+++ b/src/cc/frontend/lexer.c
@@ -282,7 +282,7 @@ static int scan_linemarker(const char *line, long *pnum, char **pfn, int *pflag)
       const char *q = strchr(p, '"');
       if (q != NULL) {
         ++n;
-        *pfn = strndup(p, q - p);
+        *pfn = strndup_or_die(p, q - p);
         p = q + 1;
 
         if (isspace(*p)) {
diff --git a/src/cpp/cpp.c b/src/cpp/cpp.c
index eeee365..c861d0b 100644
--- a/src/cpp/cpp.c
+++ b/src/cpp/cpp.c
@@ -66,5 +66,6 @@ int main(int argc, char *argv[]) {
   } else {
     preprocess(stdin, "*stdin*");
   }
+  close_output(ofp);
   return 0;
 }
diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 174ec2e..2e98297 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -47,11 +47,13 @@ static PreprocessFile *curpf;
 
 static char *cat_path_cwd(const char *dir, const char *path) {
   char *cwd = getcwd(NULL, 0);
+  if (cwd == NULL)
+    error("getcwd failed");
   return JOIN_PATHS(cwd, dir, path);
 }
 
 static char *fullpath(const char *filename) {
-  return cat_path_cwd(dirname(strdup(filename)), basename((char*)filename));
+  return cat_path_cwd(dirname(strdup_or_die(filename)), basename((char*)filename));
 }
 
 static const char *keyword(const char *s, const char *word) {
@@ -218,7 +220,7 @@ static char *preprocess_one_line(const char *line, Stream *stream, size_t *psize
   process_line(line, stream);
   pp_ofp = bak_fp;
   curpf->out_lineno = bak_lineno;
-  fclose(memfp);
+  close_output(memfp);
 
   assert(expanded[size] == '\0');
   // Chomp.
@@ -269,8 +271,10 @@ static FILE *search_sysinc(const char *prevdir, const char *path, char **pfn) {
 
       FILE *fp = NULL;
       char *fn = cat_path_cwd(v->data[idx], path);
-      if (registered_pragma_once(fn) ||  // If pragma once hit, then fp keeps NULL.
-          (is_file(fn) && (fp = fopen(fn, "r")) != NULL)) {
+      bool once = registered_pragma_once(fn);  // If pragma once hit, then fp keeps NULL.
+      if (once || is_file(fn)) {
+        if (!once && (fp = fopen(fn, "r")) == NULL)
+          error("Cannot open file: %s", fn);
         *pfn = fn;
         return fp;
       }
@@ -349,17 +353,17 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
     }
   }
 
-  char *path = strndup(p, q - p);
+  char *path = strndup_or_die(p, q - p);
   char *fn = NULL;
   FILE *fp = NULL;
-  char *dir = strdup(dirname(strdup(stream->filename)));
+  char *dir = strdup_or_die(dirname(strdup_or_die(stream->filename)));
   // Search from current directory.
   if (!is_next && !sys) {
     fn = cat_path_cwd(dir, path);
     if (registered_pragma_once(fn))
       return;
-    if (is_file(fn))
-      fp = fopen(fn, "r");
+    if (is_file(fn) && (fp = fopen(fn, "r")) == NULL)
+      error("Cannot open file: %s", fn);
   }
   if (fp == NULL) {
     fp = search_sysinc(is_next ? dir : NULL, path, &fn);
@@ -398,7 +402,8 @@ static void handle_line_directive(const char **pp, Stream *stream) {
   PpResult num;
   {
     FILE *memfp = fmemopen(expanded, size, "r");
-    assert(memfp != NULL);
+    if (memfp == NULL)
+      error("fmemopen failed");
 
     Stream tmp_stream;
     tmp_stream.fp = memfp;
@@ -419,7 +424,7 @@ static void handle_line_directive(const char **pp, Stream *stream) {
       p += 1;
       const char *q = strchr(p, '"');
       if (q != NULL) {
-        stream->filename = strndup(p, q - p);
+        stream->filename = strndup_or_die(p, q - p);
         p = q + 1;
       }
       next = p;
@@ -638,7 +643,8 @@ static bool handle_if(const char **pp, Stream *stream, bool enable) {
   PpResult result;
   {
     FILE *memfp = fmemopen(expanded, size, "r");
-    assert(memfp != NULL);
+    if (memfp == NULL)
+      error("fmemopen failed");
 
     Stream tmp_stream;
     tmp_stream.fp = memfp;
@@ -866,5 +872,5 @@ void define_macro(const char *arg) {
 
 void add_inc_path(enum IncludeOrder order, const char *path) {
   assert(order < INC_ORDERS);
-  vec_push(&sys_inc_paths[order], strdup(path));
+  vec_push(&sys_inc_paths[order], strdup_or_die(path));
 }
-- 
2.43.0


From ea851a10b1464dc698510bfe69799f98991f3202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:41 +0000
Subject: [PATCH 10/26] fix: as: report failed output and remove it; order
 sections independently of addresses

---
 src/as/as.c        | 3 ++-
 src/as/emit_elf.c  | 5 ++++-
 src/as/parse_asm.c | 8 ++++----
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/as/as.c b/src/as/as.c
index 30f02a6..fdb83b1 100644
--- a/src/as/as.c
+++ b/src/as/as.c
@@ -109,7 +109,8 @@ static int cmp_section(const void *pa, const void *pb) {
   int d = ka - kb;
   if (d != 0)
     return d;
-  return pa < pb ? -1 : 1;
+  d = memcmp(sa->name->chars, sb->name->chars, MIN(sa->name->bytes, sb->name->bytes));
+  return d != 0 ? d : sa->name->bytes - sb->name->bytes;
 }
 
 static Vector *sort_sections(Table *section_infos) {
diff --git a/src/as/emit_elf.c b/src/as/emit_elf.c
index 5e28cdd..1364b5c 100644
--- a/src/as/emit_elf.c
+++ b/src/as/emit_elf.c
@@ -486,6 +486,7 @@ int emit_elf_obj(const char *ofn, Vector *sections, Table *label_table, Vector *
       fprintf(stderr, "Failed to open output file: %s\n", ofn);
       return 1;
     }
+    add_unfinished_output(ofn);
   }
 
   uint64_t entry = 0;
@@ -519,12 +520,14 @@ int emit_elf_obj(const char *ofn, Vector *sections, Table *label_table, Vector *
   fwrite(symtab.buf, sizeof(*symtab.buf), symtab.count, ofp);
   fwrite(strtab_dump(&symtab.strtab), symtab.strtab.size, 1, ofp);
 
-  assert(ofp == stdout || ftell(ofp) == (long)shstrtab_ofs);
+  put_padding(ofp, shstrtab_ofs);
   fwrite(strtab_dump(&shstrtab), shstrtab.size, 1, ofp);
 
   put_padding(ofp, sh_ofs);
   fwrite(section_headers.buf, section_headers.len, 1, ofp);
 
+  close_output(ofp);
+  finish_outputs();
   return 0;
 }
 #endif
diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 3f9d160..c0e1a01 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -763,7 +763,7 @@ static char *parse_string(ParseInfo *info) {
   info->p = p;
 
   const char *s = start + 1, *e = p - 1;
-  return strndup(s, e - s);
+  return strndup_or_die(s, e - s);
 }
 
 static uint32_t parse_section_flag(ParseInfo *info) {
@@ -1030,7 +1030,7 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
         flag = parse_section_flag(info);
       }
 
-      char *sectname = strndup(name->chars, name->bytes);
+      char *sectname = strndup_or_die(name->chars, name->bytes);
       set_current_section(info, sectname, kSegRodata, flag);
 #else
       const char *p = skip_whitespaces(info->p);
@@ -1063,8 +1063,8 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
         }
       }
 
-      char *segname = strndup(name->chars, name->bytes);
-      char *sectname = strndup(name2->chars, name2->bytes);
+      char *segname = strndup_or_die(name->chars, name->bytes);
+      char *sectname = strndup_or_die(name2->chars, name2->bytes);
       section = set_current_section(info, sectname, segname, flag);
 #endif
     }
-- 
2.43.0


From bcc7d0c97abfd38037bfee25b4a4126c6b737f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:41 +0000
Subject: [PATCH 11/26] fix: ld: report failed output and remove it, reject
 torn objects and archives, deterministic map order

---
 src/ld/elfobj.c    | 18 +++++++++++++++++-
 src/ld/ld.c        | 30 ++++++++++++++++++------------
 src/util/archive.c |  9 ++++-----
 3 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/ld/elfobj.c b/src/ld/elfobj.c
index c6f0ae2..5d85534 100644
--- a/src/ld/elfobj.c
+++ b/src/ld/elfobj.c
@@ -17,7 +17,13 @@ static Elf64_Shdr *read_all_section_headers(FILE *fp, size_t start_offset, Elf64
 
 static char *read_strtab(FILE *fp, size_t start_offset, Elf64_Shdr *sec) {
   assert(sec->sh_type == SHT_STRTAB);
-  return read_or_die(fp, NULL, sec->sh_offset + start_offset, sec->sh_size, "read strtab failed");
+  if (sec->sh_size <= 0)
+    error("malformed strtab");
+  char *buf = read_or_die(fp, NULL, sec->sh_offset + start_offset, sec->sh_size,
+                          "read strtab failed");
+  if (buf[sec->sh_size - 1] != '\0')
+    error("malformed strtab");
+  return buf;
 }
 
 static void load_symtab(ElfObj *elfobj) {
@@ -29,6 +35,8 @@ static void load_symtab(ElfObj *elfobj) {
       error("Multiple symtabs not supported\n");
     if (shdr->sh_size % sizeof(Elf64_Sym) != 0)
       error("illega symtab size");
+    if (shdr->sh_link >= elfobj->ehdr.e_shnum)
+      error("malformed symtab");
 
     Elf64_Sym *symbols = read_or_die(elfobj->fp, NULL, shdr->sh_offset + elfobj->start_offset,
                                      shdr->sh_size, "read symtab failed");
@@ -56,6 +64,8 @@ static void load_symtab(ElfObj *elfobj) {
     elfobj->symbol_table = symbol_table;
     for (size_t i = 0, count = p->symtab.count; i < count; ++i) {
       Elf64_Sym *sym = &symbols[i];
+      if (sym->st_name >= strtab_sec->sh_size)
+        error("malformed symtab");
       unsigned char bind = ELF64_ST_BIND(sym->st_info);
       if (bind == STB_GLOBAL || bind == STB_WEAK) {
         const Name *name = alloc_name(&strbuf[sym->st_name], NULL, false);
@@ -69,6 +79,8 @@ static void load_symtab(ElfObj *elfobj) {
 
 ElfObj *read_elf(FILE *fp, const char *fn) {
   long start_offset = ftell(fp);
+  if (start_offset < 0)
+    error("read error: %s", fn);
   Elf64_Ehdr ehdr;
   ssize_t size = fread(&ehdr, sizeof(ehdr), 1, fp);
   if (size != 1 || ehdr.e_ident[0] != ELFMAG0 || ehdr.e_ident[1] != ELFMAG1 ||
@@ -137,6 +149,10 @@ ElfObj *read_elf(FILE *fp, const char *fn) {
         error("read shstrtab failed");
       shstrtab->strtab.buf = buf;
     }
+    for (unsigned short i = 0; i < ehdr.e_shnum; ++i) {
+      if (shdrs[i].sh_name >= shstrtab->shdr->sh_size)
+        error("malformed section name: %s", fn);
+    }
   }
 
   return elfobj;
diff --git a/src/ld/ld.c b/src/ld/ld.c
index 2397ac9..a58c0fb 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -101,14 +101,13 @@ void ld_load(LinkEditor *ld, int i, const char *filename) {
   if (strcasecmp(ext, "o") == 0) {
     FILE *fp;
     if (!is_file(filename) || (fp = fopen(filename, "rb")) == NULL) {
-      fprintf(stderr, "cannot open: %s\n", filename);
-    } else {
-      ElfObj *elfobj = read_elf(fp, filename);
-      if (elfobj == NULL)
-        exit(1);
-      file->kind = FK_ELFOBJ;
-      file->elfobj = elfobj;
+      error("cannot open: %s", filename);
     }
+    ElfObj *elfobj = read_elf(fp, filename);
+    if (elfobj == NULL)
+      exit(1);
+    file->kind = FK_ELFOBJ;
+    file->elfobj = elfobj;
   } else if (strcasecmp(ext, "a") == 0) {
     Archive *archive = load_archive(filename);
     if (archive == NULL) {
@@ -684,8 +683,10 @@ static bool output_exe(const char *ofn, uint64_t entry_address,
       perror("open failed");
       return false;
     }
+    add_unfinished_output(ofn);
     fp = fdopen(fd, "wb");
-    assert(fp != NULL);
+    if (fp == NULL)
+      error("Failed to open output file");
   }
 
   size_t code_rodata_sz = section_groups[SEC_TEXT].ds->len;
@@ -716,7 +717,7 @@ static bool output_exe(const char *ofn, uint64_t entry_address,
     output_section(fp, &section_groups[sec]);
     addr += size;
   }
-  fclose(fp);
+  close_output(fp);
 
   return true;
 }
@@ -811,7 +812,10 @@ static int sort_dump_symbol(const void *a, const void *b) {
   DumpSymbol *dsb = *(DumpSymbol**)b;
   if (dsa->address != dsb->address)
     return dsa->address < dsb->address ? -1 : 1;
-  return a < b ? -1 : 1;
+  int d = strcmp(dsa->name, dsb->name);
+  if (d == 0)
+    d = strcmp(dsa->filename, dsb->filename);
+  return d != 0 ? d : dsa->flag - dsb->flag;
 }
 
 static bool output_map_file(LinkEditor *ld, const char *outmapfn, uint64_t entry_address,
@@ -829,6 +833,7 @@ static bool output_map_file(LinkEditor *ld, const char *outmapfn, uint64_t entry
       perror("Failed to open map file");
       return false;
     }
+    add_unfinished_output(outmapfn);
   }
 
   fprintf(mapfp, "### Symbols\n");
@@ -849,8 +854,7 @@ static bool output_map_file(LinkEditor *ld, const char *outmapfn, uint64_t entry
   fprintf(mapfp, "\n### Entry point\n");
   fprintf(mapfp, "%9" PRIx64 ": %.*s\n", entry_address, NAMES(entry_name));
 
-  if (mapfp != stdout)
-    fclose(mapfp);
+  close_output(mapfp);
 
   return true;
 }
@@ -1152,6 +1156,8 @@ static int do_link(Vector *sources, const Options *opts) {
 
   if (opts->outmapfn != NULL && result)
     result = output_map_file(ld, opts->outmapfn, entry_address, entry_name);
+  if (result)
+    finish_outputs();
   return result ? 0 : 1;
 }
 
diff --git a/src/util/archive.c b/src/util/archive.c
index 5d9c461..245cb68 100644
--- a/src/util/archive.c
+++ b/src/util/archive.c
@@ -118,8 +118,9 @@ Archive *load_archive(const char *filename) {
       symbol->content = &contents[index];
     }
 
-    size_t pos = ftell(fp);
-    assert(pos < contents[0].file_offset);
+    long pos = ftell(fp);
+    if (pos < 0 || pos >= (long)contents[0].file_offset)
+      error("Malformed archive: %s", filename);
     size_t strtablen = contents[0].file_offset - pos;
     char *strtab = malloc_or_die(strtablen);  // Buffer pointer is not kept.
     read_or_die(fp, strtab, -1, strtablen, "Strtab");
@@ -147,10 +148,8 @@ void *load_archive_content(Archive *ar, ArSymbol *symbol,
   if (content->obj != NULL)
     return content->obj;
 
-  fseek(ar->fp, content->file_offset, SEEK_SET);
-
   struct ar_hdr hdr;
-  read_or_die(ar->fp, &hdr, -1, sizeof(hdr), "hdr");
+  read_or_die(ar->fp, &hdr, content->file_offset, sizeof(hdr), "hdr");
   if (memcmp(hdr.ar_fmag, ARFMAG, sizeof(hdr.ar_fmag)) != 0)
     error("Malformed archive");
 
-- 
2.43.0


From 10b255090f63cfd0e946a4152a35cc6cda4d006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:38 +0000
Subject: [PATCH 12/26] fix: wcc: report failed reads and writes, remove
 unfinished outputs, reject truncated objects

---
 src/wcc/wasm_linker.c | 19 ++++++++++++++-----
 src/wcc/wcc.c         | 37 +++++++++++++++++++++++--------------
 2 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/src/wcc/wasm_linker.c b/src/wcc/wasm_linker.c
index bb49804..c3ec4c6 100644
--- a/src/wcc/wasm_linker.c
+++ b/src/wcc/wasm_linker.c
@@ -507,8 +507,10 @@ static WasmObj *read_wasm(FILE *fp, const char *filename, size_t filesize) {
     return false;
   }
 
+  if (filesize < sizeof(header))
+    return false;
   size_t bufsize = filesize - sizeof(header);
-  void *buffer = malloc_or_die(bufsize);
+  void *buffer = calloc_or_die(bufsize + 16);  // Keep zeroes after the end for LEB128.
   size_t readsize = fread(buffer, 1, bufsize, fp);
   if (readsize != bufsize) {
     fprintf(stderr, "load failed: %s\n", filename);
@@ -535,6 +537,8 @@ static WasmObj *read_wasm(FILE *fp, const char *filename, size_t filesize) {
       }
 
       size_t size = read_uleb128(p, &p);
+      if (p > end || size > (size_t)(end - p))
+        error("truncated wasm object: %s", filename);
       int count = ++wasmobj->section_count;
       wasmobj->sections = sections = realloc_or_die(sections, sizeof(WasmSection) * count);
       WasmSection *sec = &sections[count - 1];
@@ -1549,9 +1553,12 @@ bool read_wasm_obj(WasmLinker *linker, const char *filename) {
       return false;
     }
 
-    fseek(fp, 0, SEEK_END);
-    long filesize = ftell(fp);
-    fseek(fp, 0, SEEK_SET);
+    long filesize;
+    if (fseek(fp, 0, SEEK_END) != 0 || (filesize = ftell(fp)) < 0 ||
+        fseek(fp, 0, SEEK_SET) != 0) {
+      fprintf(stderr, "read error: %s\n", filename);
+      return false;
+    }
 
     WasmObj *wasmobj = read_wasm(fp, filename, filesize);
     fclose(fp);
@@ -1684,6 +1691,7 @@ bool linker_emit_wasm(WasmLinker *linker, const char *ofn, Vector *exports) {
     fprintf(stderr, "cannot open: %s\n", ofn);
     return false;
   }
+  add_unfinished_output(ofn);
 
   linker->ofp = ofp;
 
@@ -1727,7 +1735,8 @@ bool linker_emit_wasm(WasmLinker *linker, const char *ofn, Vector *exports) {
   // Data.
   out_data_section(linker);
 
-  fclose(ofp);
+  close_output(ofp);
+  finish_outputs();
 
   return true;
 }
diff --git a/src/wcc/wcc.c b/src/wcc/wcc.c
index d171113..bf543d7 100644
--- a/src/wcc/wcc.c
+++ b/src/wcc/wcc.c
@@ -68,7 +68,8 @@ static void usage(FILE *fp) {
 static void remove_tmp_files(void) {
   for (int i = 0; i < remove_on_exit.len; ++i) {
     const char *fn = remove_on_exit.data[i];
-    remove(fn);
+    if (fn != NULL)
+      remove(fn);
   }
 }
 
@@ -152,6 +153,8 @@ int compile_csource(const char *src, const char *ofn, Vector *obj_files, Options
     ppout = tmpfile();
   if (ppout == NULL)
     error("cannot open temporary file");
+  if (out_type == OutPreprocess && ofn != NULL)
+    add_unfinished_output(ofn);
 
   init_preprocessor(ppout);
   define_macro("__XCC");
@@ -185,12 +188,12 @@ int compile_csource(const char *src, const char *ofn, Vector *obj_files, Options
 
   do_preprocess(src);
   if (out_type == OutPreprocess) {
-    if (ppout != stdout)
-      fclose(ppout);
+    close_output(ppout);
+    finish_outputs();
     return 0;
   }
 
-  if (fseek(ppout, 0, SEEK_SET) != 0) {
+  if (ferror(ppout) || fseek(ppout, 0, SEEK_SET) != 0) {
     error("fseek failed");
   }
 
@@ -228,16 +231,16 @@ int compile_csource(const char *src, const char *ofn, Vector *obj_files, Options
   FILE *ofp;
   const char *outfn = NULL;
   if (out_type >= OutExecutable) {
-    char template[] = "/tmp/xcc-XXXXXX.o";
-    int obj_fd = mkstemps(template, 2);
+    char *tmpfn = strdup_or_die("/tmp/xcc-XXXXXX.o");
+    vec_push(&remove_on_exit, NULL);
+    int obj_fd = mkstemps(tmpfn, 2);
     if (obj_fd == -1) {
       perror("Failed to open output file");
       exit(1);
     }
-    char *tmpfn = strdup(template);
+    remove_on_exit.data[remove_on_exit.len - 1] = tmpfn;
     ofp = fdopen(obj_fd, "wb");
     outfn = tmpfn;
-    vec_push(&remove_on_exit, tmpfn);
   } else {
     outfn = ofn;
     if (outfn == NULL)
@@ -247,9 +250,12 @@ int compile_csource(const char *src, const char *ofn, Vector *obj_files, Options
   if (ofp == NULL) {
     error("Cannot open output file");
   } else {
+    if (out_type < OutExecutable)
+      add_unfinished_output(outfn);
     emit_wasm(ofp, opts->import_module_name, exports);
     assert(compile_error_count == 0);
-    fclose(ofp);
+    close_output(ofp);
+    finish_outputs();
   }
 
   vec_push(obj_files, outfn);
@@ -536,10 +542,11 @@ static int do_link(Vector *obj_files, Options *opts) {
   perror(cc);
   return 1;
 #else
-  if (!opts->nostdlib)
-    add_lib(opts->lib_paths, "wcrt0.a", obj_files);
-  if (!opts->nodefaultlibs && !opts->nostdlib)
-    add_lib(opts->lib_paths, "wlibc.a", obj_files);
+  if (!opts->nostdlib && !add_lib(opts->lib_paths, "wcrt0.a", obj_files))
+    error("wcrt0.a: library not found");
+  if (!opts->nodefaultlibs && !opts->nostdlib &&
+      !add_lib(opts->lib_paths, "wlibc.a", obj_files))
+    error("wlibc.a: library not found");
 
   const char *outfn = opts->ofn != NULL ? opts->ofn : "a.wasm";
 
@@ -647,9 +654,11 @@ int main(int argc, char *argv[]) {
 #if defined(__WASM)
   const char *root = "/usr";
 #else
-  const char *root = dirname(strdup(argv[0]));
+  const char *root = dirname(strdup_or_die(argv[0]));
   if (!is_fullpath(root)) {
     char *cwd = getcwd(NULL, 0);
+    if (cwd == NULL)
+      error("getcwd failed");
     root = JOIN_PATHS(cwd, root);
   }
 #endif
-- 
2.43.0


From 6f271a5d51e22b52a89136414733b399ffd72601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:32 +0000
Subject: [PATCH 13/26] fix: xcc: never hang, ignore a failed stage, or leave
 processes and half-made or stray files behind

---
 src/wcc/wcc.c  |   2 +-
 src/xcc/main.c | 239 ++++++++++++++++++++++++++-----------------------
 2 files changed, 127 insertions(+), 114 deletions(-)

diff --git a/src/wcc/wcc.c b/src/wcc/wcc.c
index bf543d7..8c47950 100644
--- a/src/wcc/wcc.c
+++ b/src/wcc/wcc.c
@@ -396,7 +396,7 @@ static void parse_options(int argc, char *argv[], Options *opts) {
         } else {
           StringBuffer sb;
           sb_init(&sb);
-          sb_append(&sb, "-l", optarg);
+          sb_append(&sb, "-l", NULL);
           sb_append(&sb, optarg, NULL);
           p = sb_to_string(&sb);
         }
diff --git a/src/xcc/main.c b/src/xcc/main.c
index 6931599..6f83c8a 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -21,23 +21,78 @@
 #define __AT_REMOVEDIR  0x080
 #endif
 
+// Running processes.
+typedef struct {
+  pid_t pid;
+  int ofd;  // Pipe to the next stage: keep opened until this stage succeeds.
+} Stage;
+
+static Stage stages[3];  // as, cc1 and cpp
+static int stage_count;
+
+static Vector remove_on_exit;
+static const char *unfinished_output;
+
+static void kill_stages(void) {
+  for (int i = 0; i < stage_count; ++i)
+    kill(stages[i].pid, SIGKILL);
+}
+
+static void cleanup(void) {
+  kill_stages();
+  for (; stage_count > 0; --stage_count)
+    waitpid(stages[stage_count - 1].pid, NULL, 0);
+
+  for (int i = 0; i < remove_on_exit.len; ++i) {
+    const char *fn = remove_on_exit.data[i];
+    if (fn != NULL)
+      remove(fn);
+  }
+  if (unfinished_output != NULL && is_file(unfinished_output))
+    remove(unfinished_output);
+}
+
 static pid_t fork1(void) {
   pid_t pid = fork();
   if (pid < 0)
     error("fork failed");
+  if (pid == 0) {
+    // Cleanup is done by the parent.
+    stage_count = 0;
+    remove_on_exit.len = 0;
+    unfinished_output = NULL;
+  }
   return pid;
 }
 
-static int wait_process(pid_t pid) {
-  int status = -1;
-  if (waitpid(pid, &status, 0) < 0)
-    error("wait failed");
-  return status;
+static void add_stage(pid_t pid, int ofd) {
+  assert(stage_count < (int)ARRAY_SIZE(stages));
+  stages[stage_count++] = (Stage){.pid = pid, .ofd = ofd};
 }
 
-static pid_t wait_child(int *status) {
-  *status = -1;
-  return waitpid(0, status, 0);
+// Wait for all stages. If one fails, then the others are killed.
+static int wait_stages(void) {
+  int res = 0;
+  while (stage_count > 0) {
+    int status = -1;
+    pid_t pid = waitpid(-1, &status, 0);
+    if (pid < 0)
+      error("wait failed");
+    for (int i = 0; i < stage_count; ++i) {
+      Stage *stage = &stages[i];
+      if (stage->pid != pid)
+        continue;
+      if (stage->ofd >= 0)
+        close(stage->ofd);
+      *stage = stages[--stage_count];
+      if (status != 0) {
+        res |= status;
+        kill_stages();
+      }
+      break;
+    }
+  }
+  return res;
 }
 
 // command > ofd
@@ -59,7 +114,8 @@ static pid_t exec_with_ofd(char **command, int ofd) {
 }
 
 // | command > ofd
-static pid_t pipe_exec(char **command, int ofd, int fd[2]) {
+static pid_t pipe_exec(char **command, int ofd, int *pipe_ofd) {
+  int fd[2];
   if (pipe(fd) < 0)
     error("pipe failed");
 
@@ -82,64 +138,24 @@ static pid_t pipe_exec(char **command, int ofd, int fd[2]) {
       exit(1);
     }
   }
+  close(fd[0]);
+  *pipe_ofd = fd[1];
   return pid;
 }
 
-static Vector remove_on_exit;
-
-static void remove_tmp_files(void) {
-  for (int i = 0; i < remove_on_exit.len; ++i) {
-    const char *fn = remove_on_exit.data[i];
-    remove(fn);
-  }
-}
-
-static int compile(const char *src, Vector *cpp_cmd, Vector *cc1_cmd, int ofd) {
-  int ofd2 = ofd;
-  int cc_fd[2];
-  pid_t cc_pid = -1;
-  int running = 0;
+// Start cpp and cc1: `as_fd` is the pipe to as, or -1.
+static void compile(const char *src, Vector *cpp_cmd, Vector *cc1_cmd, int ofd, int as_fd) {
+  int cc_fd = -1;
   if (cc1_cmd != NULL) {
-    cc_pid = pipe_exec((char**)cc1_cmd->data, ofd, cc_fd);
-    ofd2 = cc_fd[1];
-    ++running;
+    pid_t cc_pid = pipe_exec((char**)cc1_cmd->data, ofd, &cc_fd);
+    add_stage(cc_pid, as_fd);
+    ofd = cc_fd;
   }
 
   // When src is NULL, no input file is given and cpp read from stdin.
   cpp_cmd->data[cpp_cmd->len - 2] = strcmp(src, "-") == 0 ? NULL : (void*)src;
-  pid_t cpp_pid = exec_with_ofd((char**)cpp_cmd->data, ofd2);
-  ++running;
-
-  int res = 0;
-  for (; running > 0; --running) {
-    int status;
-    pid_t done = wait_child(&status);  // cpp or cc1
-    if (done > 0) {
-      res |= status;
-      if (done == cpp_pid) {
-        cpp_pid = -1;
-        if (cc_pid != -1) {
-          if (status != 0) {
-            // Illegal: cpp exit with failure.
-            kill(cc_pid, SIGKILL);
-            break;
-          }
-          close(cc_fd[0]);
-          close(cc_fd[1]);
-        }
-      } else if (done == cc_pid) {
-        cc_pid = -1;
-        if (cpp_pid != -1) {
-          // Illegal: cc dies earlier than cpp.
-          kill(cpp_pid, SIGKILL);
-          break;
-        }
-      }
-    } else {
-      res |= 1;
-    }
-  }
-  return res;
+  pid_t cpp_pid = exec_with_ofd((char**)cpp_cmd->data, ofd);
+  add_stage(cpp_pid, cc_fd);
 }
 
 static void usage(FILE *fp) {
@@ -163,54 +179,44 @@ enum OutType {
   OutExecutable,
 };
 
+static const char *create_tmp_obj(void) {
+  char *fn = strdup_or_die("/tmp/xcc-XXXXXX.o");
+  vec_push(&remove_on_exit, NULL);
+  int fd = mkstemps(fn, 2);
+  if (fd == -1) {
+    perror("Failed to open output file");
+    exit(1);
+  }
+  remove_on_exit.data[remove_on_exit.len - 1] = fn;
+  close(fd);
+  return fn;
+}
+
 static int compile_csource(const char *source_fn, enum OutType out_type, const char *ofn, int ofd,
                            Vector *cpp_cmd, Vector *cc1_cmd, Vector *as_cmd, Vector *ld_cmd) {
   const char *objfn = NULL;
-  int obj_fd = -1;
+  int as_fd = -1;
   if (out_type > OutAssembly) {
     if (ofn != NULL && out_type < OutExecutable) {
       objfn = ofn;
+      unfinished_output = ofn;
     } else {
-      char template[] = "/tmp/xcc-XXXXXX.o";
-      obj_fd = mkstemps(template, 2);
-      if (obj_fd == -1) {
-        perror("Failed to open output file");
-        exit(1);
-      }
-      objfn = strdup(template);
-      vec_push(&remove_on_exit, objfn);
+      objfn = create_tmp_obj();
     }
-  }
-
-  int as_fd[2];
-  pid_t as_pid = -1;
 
-  if (out_type > OutAssembly) {
     assert(as_cmd->len >= 3);
     as_cmd->data[as_cmd->len - 3] = (void*)objfn;  // Overwrite output filename.
     as_cmd->data[as_cmd->len - 2] = "-";  // Overwrite source filename.
-    as_pid = pipe_exec((char**)as_cmd->data, -1, as_fd);
-    ofd = as_fd[1];
+    pid_t as_pid = pipe_exec((char**)as_cmd->data, -1, &as_fd);
+    add_stage(as_pid, -1);
+    ofd = as_fd;
   }
 
-  int res = compile(source_fn, cpp_cmd, out_type == OutPreprocess ? NULL : cc1_cmd, ofd);
+  compile(source_fn, cpp_cmd, out_type == OutPreprocess ? NULL : cc1_cmd, ofd, as_fd);
+  int res = wait_stages();
 
   if (out_type >= OutExecutable)
     vec_push(ld_cmd, objfn);
-
-  if (res != 0 && as_pid != -1) {
-    kill(as_pid, SIGKILL);
-    remove(ofn);
-  }
-  if (as_pid != -1) {
-    close(as_fd[0]);
-    close(as_fd[1]);
-    as_pid = -1;
-    res |= wait_process(as_pid);
-  }
-  if (obj_fd != -1) {
-    close(obj_fd);
-  }
   return res;
 }
 
@@ -220,12 +226,9 @@ static int compile_asm(const char *source_fn, enum OutType out_type, const char
   if (out_type > OutAssembly) {
     if (ofn != NULL && out_type < OutExecutable) {
       objfn = ofn;
+      unfinished_output = ofn;
     } else {
-      size_t len = strlen(source_fn);
-      char *p = malloc_or_die(len + 3);
-      memcpy(p, source_fn, len);
-      strcpy(p + len, ".o");
-      objfn = p;
+      objfn = create_tmp_obj();
     }
 
     assert(as_cmd->len >= 3);
@@ -233,13 +236,13 @@ static int compile_asm(const char *source_fn, enum OutType out_type, const char
     as_cmd->data[as_cmd->len - 2] = (void*)source_fn;  // Overwrite source filename.
   }
 
-  int status = 0;
   pid_t as_pid = exec_with_ofd((char**)as_cmd->data, ofd);
-  waitpid(as_pid, &status, 0);
+  add_stage(as_pid, -1);
+  int res = wait_stages();
 
   if (out_type >= OutExecutable)
     vec_push(ld_cmd, objfn);
-  return status;
+  return res;
 }
 
 static const char *get_exe_prefix(const char *path) {
@@ -445,7 +448,7 @@ static void parse_options(int argc, char *argv[], Options *opts) {
         } else {
           StringBuffer sb;
           sb_init(&sb);
-          sb_append(&sb, "-l", optarg);
+          sb_append(&sb, "-l", NULL);
           sb_append(&sb, optarg, NULL);
           p = sb_to_string(&sb);
         }
@@ -551,15 +554,6 @@ static int do_compile(Options *opts, const char *root) {
       }
     }
 
-    if (opts->out_type <= OutAssembly && outfn != NULL && strcmp(outfn, "-") != 0) {
-      close(STDOUT_FILENO);
-      ofd = open(outfn, O_WRONLY | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
-      if (ofd == -1) {
-        perror("Failed to open output file");
-        exit(1);
-      }
-    }
-
     enum SourceType st = opts->src_type;
     if (src != NULL) {
       char *ext = get_ext(src);
@@ -569,6 +563,18 @@ static int do_compile(Options *opts, const char *root) {
       else if (strcasecmp(ext, "a") == 0)  st = ArchiveFile;
     }
 
+    bool to_file = st == Clanguage && opts->out_type <= OutAssembly && outfn != NULL &&
+                   strcmp(outfn, "-") != 0;
+    if (to_file) {
+      close(STDOUT_FILENO);
+      ofd = open(outfn, O_WRONLY | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
+      if (ofd == -1) {
+        perror("Failed to open output file");
+        exit(1);
+      }
+      unfinished_output = outfn;
+    }
+
     switch (st) {
     case UnknownSource:
       fprintf(stderr, "Unknown source type: %s\n", src);
@@ -587,8 +593,13 @@ static int do_compile(Options *opts, const char *root) {
         vec_push(opts->ld_cmd, src);
       break;
     }
+    if (to_file && close(ofd) != 0) {
+      perror("Failed to write output file");
+      res = -1;
+    }
     if (res != 0)
       break;
+    unfinished_output = NULL;
   }
 
   if (res == 0 && opts->out_type >= OutExecutable) {
@@ -603,10 +614,12 @@ static int do_compile(Options *opts, const char *root) {
     }
 
     vec_push(opts->ld_cmd, NULL);
+    unfinished_output = opts->ofn != NULL ? opts->ofn : "a.out";
     pid_t ld_pid = exec_with_ofd((char**)opts->ld_cmd->data, -1);
-    int status;
-    waitpid(ld_pid, &status, 0);
-    res |= status;
+    add_stage(ld_pid, -1);
+    res |= wait_stages();
+    if (res == 0)
+      unfinished_output = NULL;
   }
 
   return res == 0 ? 0 : 1;
@@ -670,7 +683,7 @@ static void append_predefined_macros(Vector *cpp_cmd) {
 
 int main(int argc, char *argv[]) {
   const char *xccpath = argv[0];
-  const char *root = dirname(strdup(xccpath));
+  const char *root = dirname(strdup_or_die(xccpath));
   const char *prefix = get_exe_prefix(xccpath);
   char *cpp_path = join_exe_prefix(xccpath, prefix, "cpp");
   char *cc1_path = join_exe_prefix(xccpath, prefix, "cc1");
@@ -755,7 +768,7 @@ int main(int argc, char *argv[]) {
 #endif
   }
 
-  atexit(remove_tmp_files);
+  atexit(cleanup);
 
   return do_compile(&opts, root);
 }
-- 
2.43.0


From f23a04f8ff25cbac2eb066e2c6b85183c9e8d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:46 +0000
Subject: [PATCH 14/26] fix: as: a string that is not closed (cut line) no
 longer loops for ever and reads past the line

---
 src/as/parse_asm.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index c0e1a01..3618036 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -736,8 +736,10 @@ static size_t unescape_string(ParseInfo *info, char *dst) {
   size_t len = 0;
   for (; *info->p != '"'; ++info->p, ++len) {
     char c = *info->p;
-    if (c == '\0')
+    if (c == '\0' || (c == '\\' && info->p[1] == '\0')) {
       parse_error(info, "string not closed");
+      return len;
+    }
     if (c == '\\') {
       ++info->p;
       c = unescape_char(info);
@@ -797,8 +799,10 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
   case DT_ASCII:
   case DT_STRING:
     {
-      if (*info->p != '"')
+      if (*info->p != '"') {
         parse_error(info, "`\"' expected");
+        break;
+      }
       ++info->p;
       const char *p = info->p;
       size_t len = unescape_string(info, NULL);
-- 
2.43.0


From 13e3e2d5543312d504498b9f1c39809655db7ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:36 +0000
Subject: [PATCH 15/26] fix: wasm open and stat find a preopened directory by
 its own name

---
 libsrc/_wasm/unistd/open.c | 6 ++++++
 libsrc/_wasm/unistd/stat.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/libsrc/_wasm/unistd/open.c b/libsrc/_wasm/unistd/open.c
index e997bf2..bdfcc70 100644
--- a/libsrc/_wasm/unistd/open.c
+++ b/libsrc/_wasm/unistd/open.c
@@ -64,6 +64,12 @@ int open(const char *fn, int flag, ...) {
     } else if (l == 1 && *buf == '/' && *fn == '/') {
       fn2 = fn + 1;
       fnlen2 = fnlen - 1;
+    } else if (strcmp(fn, buf) == 0) {
+      fnlen2 = 0;
+    }
+    if (fnlen2 == 0 && fnlen > 0) {  // The preopened directory itself.
+      fn2 = ".";
+      fnlen2 = 1;
     }
     uint32_t opened = -1;
     uint32_t result = path_open(base_fd, dirflags, fn2, fnlen2, oflags, fs_rights_base,
diff --git a/libsrc/_wasm/unistd/stat.c b/libsrc/_wasm/unistd/stat.c
index 45f315c..47cfc6c 100644
--- a/libsrc/_wasm/unistd/stat.c
+++ b/libsrc/_wasm/unistd/stat.c
@@ -33,6 +33,12 @@ int stat(const char *fn, struct stat *st) {
     } else if (l == 1 && *buf == '/' && *fn == '/') {
       fn2 = fn + 1;
       fnlen2 = fnlen - 1;
+    } else if (strcmp(fn, buf) == 0) {
+      fnlen2 = 0;
+    }
+    if (fnlen2 == 0 && fnlen > 0) {  // The preopened directory itself.
+      fn2 = ".";
+      fnlen2 = 1;
     }
 
     Filestat fs;
-- 
2.43.0


From 171295bb2981804be5e65d1ef13041b5acd09017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:36 +0000
Subject: [PATCH 16/26] fix: wasm open honours O_CREAT and O_EXCL for read-only
 descriptors

---
 libsrc/_wasm/unistd/open.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libsrc/_wasm/unistd/open.c b/libsrc/_wasm/unistd/open.c
index bdfcc70..8617215 100644
--- a/libsrc/_wasm/unistd/open.c
+++ b/libsrc/_wasm/unistd/open.c
@@ -27,13 +27,13 @@ int open(const char *fn, int flag, ...) {
   }
   uint64_t fs_rights_inheriting = fs_rights_base;
 
+  if (flag & O_CREAT)
+    oflags |= OFLAGS_CREAT;
+  if (flag & O_EXCL)
+    oflags |= OFLAGS_EXCL;
   if (fs_rights_base & FD_WRITE) {
-    if (flag & O_CREAT)
-      oflags |= OFLAGS_CREAT;
     if (flag & O_TRUNC)
       oflags |= OFLAGS_TRUNC;
-    if (flag & O_EXCL)
-      oflags |= OFLAGS_EXCL;
     if (flag & O_APPEND)
       fdflags |= FDFLAGS_APPEND;
   }
-- 
2.43.0


From 476ac2820402d382853f8d82c89fa5df64307b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:48 +0000
Subject: [PATCH 17/26] fix: wcc hosted in wasm never used br_table for switch:
 INTPTR_MIN/MAX were swapped

---
 include/stdint.h   | 8 ++++----
 src/wcc/gen_wasm.c | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdint.h b/include/stdint.h
index 63e06b5..5749b25 100644
--- a/include/stdint.h
+++ b/include/stdint.h
@@ -15,13 +15,13 @@ typedef          long long  int64_t;
 typedef unsigned long long  uint64_t;
 
 #if defined(__ILP32__)
-#define INTPTR_MAX   INT32_MIN
-#define INTPTR_MIN   INT32_MAX
+#define INTPTR_MIN   INT32_MIN
+#define INTPTR_MAX   INT32_MAX
 
 #else
 
-#define INTPTR_MAX   INT64_MIN
-#define INTPTR_MIN   INT64_MAX
+#define INTPTR_MIN   INT64_MIN
+#define INTPTR_MAX   INT64_MAX
 #endif
 
 typedef               long  intptr_t;
diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 10efbb4..4d1bf71 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -1190,8 +1190,8 @@ static void gen_switch(Stmt *stmt) {
   assert(is_fixnum(value->type->kind));
 
   int default_index = block_count;
-  Fixnum min = INTPTR_MAX;
-  Fixnum max = INTPTR_MIN;
+  Fixnum min = INT64_MAX;
+  Fixnum max = INT64_MIN;
   for (int i = 0; i < case_count; ++i) {
     Stmt *c = cases->data[i];
     if (c->case_.value == NULL) {
-- 
2.43.0


From 0a4287c84c7e0bce6c53bee2b637bb3df635a9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:50 +0000
Subject: [PATCH 18/26] fix: wcc: forget the init functions of the previous
 source

With several sources on one command line the constructors of an earlier
source were kept in the list and ended up in the next object's init
functions.
---
 src/wcc/traverse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wcc/traverse.c b/src/wcc/traverse.c
index a3094b3..9898032 100644
--- a/src/wcc/traverse.c
+++ b/src/wcc/traverse.c
@@ -897,6 +897,7 @@ static int detect_compile_unit_flags(Vector *decls) {
 
 void traverse_ast(Vector *decls) {
   compile_unit_flag = 0;
+  init_funcs = NULL;
 
   // Global scope
   for (int k = 0; k < 2; ++k) {  // 0=register, 1=traverse
-- 
2.43.0


From cbbfc6f6d7f2db51b0aa17f5e7dda9015dc4eede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:34 +0000
Subject: [PATCH 19/26] fix: libc: exit runs every destructor and flushes the
 streams last

In wasm the destructors of a source are kept by __cxa_atexit, of which
only 8 fitted, and the streams were flushed by such a destructor: data
written by an exit handler or a destructor was lost depending on the
link order, and with 7 sources having destructors nothing was flushed.
Keep the functions of atexit and __cxa_atexit in one growing list, and
flush the streams after it and all destructors.
---
 libsrc/stdio/_fileman.c        | 32 ++++++++++++++------
 libsrc/stdio/stdin.c           | 32 +++++++++++++++-----
 libsrc/stdlib/__cxa_atexit.c   | 37 ++---------------------
 libsrc/stdlib/_add_exit_func.c | 54 ++++++++++++++++++++++++++++++++++
 libsrc/stdlib/_exit.h          |  6 ++++
 libsrc/stdlib/atexit.c         | 29 +-----------------
 libsrc/stdlib/exit.c           | 11 ++++++-
 7 files changed, 121 insertions(+), 80 deletions(-)
 create mode 100644 libsrc/stdlib/_add_exit_func.c

diff --git a/libsrc/stdio/_fileman.c b/libsrc/stdio/_fileman.c
index e3df3ef..a99a59d 100644
--- a/libsrc/stdio/_fileman.c
+++ b/libsrc/stdio/_fileman.c
@@ -1,7 +1,9 @@
 #include "stdio.h"
 
+#include "stdbool.h"
 #include "stdlib.h"  // realloc
 
+#include "../stdlib/_exit.h"
 #include "_file.h"
 #include "_fileman.h"
 
@@ -9,6 +11,17 @@
 
 FILEMAN __fileman;
 
+#if defined(__APPLE__)
+__attribute__((destructor))
+#endif
+static void flush_opened_files(void) {
+  struct FILE **files = __fileman.opened;
+  for (int i = 0, length = __fileman.length; i < length; ++i) {
+    FILE *fp = files[i];
+    (fp->flush)(fp);
+  }
+}
+
 int _add_opened_file(FILE *fp) {
   if (__fileman.length >= __fileman.capacity) {
     int ncapa = __fileman.capacity > 0 ? __fileman.capacity << 1 : INITIAL_CAPACITY;
@@ -19,6 +32,16 @@ int _add_opened_file(FILE *fp) {
     __fileman.capacity = ncapa;
   }
   __fileman.opened[__fileman.length++] = fp;
+
+#if !defined(__APPLE__)
+  // Flushing must be after all exit functions and destructors.
+  static OnExitChain chain = {NULL, flush_opened_files};
+  static bool registered;
+  if (!registered) {
+    registered = true;
+    _add_on_exit_last(&chain);
+  }
+#endif
   return 0;
 }
 
@@ -36,12 +59,3 @@ void _remove_opened_file(FILE *fp) {
     }
   }
 }
-
-__attribute__((destructor))
-static void flush_opened_files(void) {
-  struct FILE **files = __fileman.opened;
-  for (int i = 0, length = __fileman.length; i < length; ++i) {
-    FILE *fp = files[i];
-    (fp->flush)(fp);
-  }
-}
diff --git a/libsrc/stdio/stdin.c b/libsrc/stdio/stdin.c
index 1fce557..5c86302 100644
--- a/libsrc/stdio/stdin.c
+++ b/libsrc/stdio/stdin.c
@@ -1,6 +1,8 @@
 #include "stdio.h"
+#include "stdbool.h"
 #include "unistd.h"
 
+#include "../stdlib/_exit.h"
 #include "_file.h"
 #include "_fileman.h"
 
@@ -29,9 +31,31 @@ static int _fclose_std(void *cookie) {
   return result;
 }
 
+#if !defined(__APPLE__)
+// Flushing must be after all exit functions and destructors.
+static void flush_std_files(void);
+
+static ssize_t _fwrite_std(void *cookie, const char *buf, size_t size) {
+  static OnExitChain chain = {NULL, flush_std_files};
+  static bool registered;
+  if (!registered) {
+    registered = true;
+    _add_on_exit_last(&chain);
+  }
+  return _fwrite(cookie, buf, size);
+}
+#else
+#define _fwrite_std  _fwrite
+__attribute__((destructor))
+#endif
+static void flush_std_files(void) {
+  FFLUSH(stdout);
+  FFLUSH(stderr);
+}
+
 static const cookie_io_functions_t kIof = {
   .read = _fread,
-  .write = _fwrite,
+  .write = _fwrite_std,
   .seek = _fseek,
   .close = _fclose_std,
 };
@@ -56,9 +80,3 @@ FILE *stdin = &_stdin.file;
 FILE *stdout = &_stdout.file;
 FILE *stderr = &_stderr.file;
 #endif
-
-__attribute__((destructor))
-static void flush_std_files(void) {
-  FFLUSH(stdout);
-  FFLUSH(stderr);
-}
diff --git a/libsrc/stdlib/__cxa_atexit.c b/libsrc/stdlib/__cxa_atexit.c
index c6adca8..03a7033 100644
--- a/libsrc/stdlib/__cxa_atexit.c
+++ b/libsrc/stdlib/__cxa_atexit.c
@@ -1,42 +1,9 @@
 #include "stdlib.h"
-#include "stdbool.h"
 #include "_exit.h"
 
-#define MAX  (8)
-
-typedef struct {
-  void (*dtor)(void*);
-  void *arg;
-  void *dso_handle;
-} CxaAtexitBuf;
-
-static CxaAtexitBuf buf[MAX];
-static int count;
-static bool finished;
-
 void *__dso_handle;
 
 int __cxa_atexit(void (*func)(void*), void *arg, void *d) {
-  if (count >= MAX || finished)
-    return 1;
-  CxaAtexitBuf *p = &buf[count++];
-  p->dtor = func;
-  p->arg = arg;
-  p->dso_handle = d;
-  return 0;
-}
-
-static void call_cxa_atexit_funcs(void) {
-  while (count > 0) {
-    CxaAtexitBuf e = buf[--count];
-    (*e.dtor)(e.arg);
-  }
-  finished = true;
-}
-
-__attribute__((constructor))
-static void register_atexit(void) {
-  static OnExitChain chain = {NULL, call_cxa_atexit_funcs};
-  chain.next = __on_exit_chain;
-  __on_exit_chain = &chain;
+  (void)d;
+  return _add_exit_func(NULL, func, arg);
 }
diff --git a/libsrc/stdlib/_add_exit_func.c b/libsrc/stdlib/_add_exit_func.c
new file mode 100644
index 0000000..e211b78
--- /dev/null
+++ b/libsrc/stdlib/_add_exit_func.c
@@ -0,0 +1,54 @@
+#include "stdlib.h"
+#include "stdbool.h"
+#include "string.h"  // memcpy
+#include "_exit.h"
+
+#define INITIAL_CAPACITY  (32)
+
+typedef struct {
+  void (*func)(void);
+  void (*dtor)(void*);
+  void *arg;
+} ExitFunc;
+
+static ExitFunc initial_buf[INITIAL_CAPACITY];
+static ExitFunc *buf = initial_buf;
+static size_t count, capacity = INITIAL_CAPACITY;
+static bool registered;
+
+static void call_exit_funcs(void) {
+  while (count > 0) {
+    ExitFunc e = buf[--count];
+    if (e.func != NULL)
+      (*e.func)();
+    else
+      (*e.dtor)(e.arg);
+  }
+  registered = false;
+}
+
+int _add_exit_func(void (*func)(void), void (*dtor)(void*), void *arg) {
+  if (count >= capacity) {
+    ExitFunc *newbuf = malloc(sizeof(*newbuf) * (capacity << 1));
+    if (newbuf == NULL)
+      return 1;
+    memcpy(newbuf, buf, sizeof(*newbuf) * count);
+    if (buf != initial_buf)
+      free(buf);
+    buf = newbuf;
+    capacity <<= 1;
+  }
+
+  ExitFunc *p = &buf[count++];
+  p->func = func;
+  p->dtor = dtor;
+  p->arg = arg;
+
+  if (!registered) {
+    static OnExitChain chain = {NULL, call_exit_funcs};
+    registered = true;
+    chain.next = __on_exit_chain;
+    __on_exit_chain = &chain;
+  }
+  return 0;
+}
diff --git a/libsrc/stdlib/_exit.h b/libsrc/stdlib/_exit.h
index 7512bb4..d9660fe 100644
--- a/libsrc/stdlib/_exit.h
+++ b/libsrc/stdlib/_exit.h
@@ -6,3 +6,9 @@ typedef struct OnExitChain {
 } OnExitChain;
 
 extern OnExitChain *__on_exit_chain;
+
+// Add to the last of the chain: called after all functions given to `atexit` and destructors.
+extern void _add_on_exit_last(OnExitChain *chain);
+
+// Add function which is called on exit, in the reverse order: `func` or `dtor`.
+extern int _add_exit_func(void (*func)(void), void (*dtor)(void*), void *arg);  // 0=success
diff --git a/libsrc/stdlib/atexit.c b/libsrc/stdlib/atexit.c
index 8f27984..74b5447 100644
--- a/libsrc/stdlib/atexit.c
+++ b/libsrc/stdlib/atexit.c
@@ -1,33 +1,6 @@
 #include "stdlib.h"
-#include "stdbool.h"
 #include "_exit.h"
 
-#define MAX  (8)
-
-typedef void (*AtexitFunc)(void);
-
-static AtexitFunc buf[MAX];
-static int count;
-static bool finished;
-
 int atexit(void (*func)(void)) {
-  if (count >= MAX || finished)
-    return 1;
-  buf[count++] = func;
-  return 0;
-}
-
-static void call_atexit_funcs(void) {
-  while (count > 0) {
-    AtexitFunc func = buf[--count];
-    (*func)();
-  }
-  finished = true;
-}
-
-__attribute__((constructor))
-static void register_atexit(void) {
-  static OnExitChain chain = {NULL, call_atexit_funcs};
-  chain.next = __on_exit_chain;
-  __on_exit_chain = &chain;
+  return _add_exit_func(func, NULL, NULL);
 }
diff --git a/libsrc/stdlib/exit.c b/libsrc/stdlib/exit.c
index b917e72..57f49e5 100644
--- a/libsrc/stdlib/exit.c
+++ b/libsrc/stdlib/exit.c
@@ -22,10 +22,19 @@ static void proc_exit(int code) {
 }
 #endif
 
+void _add_on_exit_last(OnExitChain *chain) {
+  OnExitChain **pp = &__on_exit_chain;
+  while (*pp != NULL)
+    pp = &(*pp)->next;
+  *pp = chain;
+}
+
 void exit(int code) {
   // If `exit` is called from an exit function, the rest are called from there.
-  for (OnExitChain *chain; (chain = __on_exit_chain) != NULL; __on_exit_chain = chain->next) {
+  for (OnExitChain *chain; (chain = __on_exit_chain) != NULL; ) {
     chain->func();
+    if (__on_exit_chain == chain)  // Otherwise another one is added.
+      __on_exit_chain = chain->next;
   }
 
   proc_exit(code);
-- 
2.43.0


From 716962d5311f96c2f8981f8d4df76fe62bca20e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:48 +0000
Subject: [PATCH 20/26] fix: libc: strtod rounds to nearest and stops before an
 exponent without digits

---
 libsrc/stdlib/strtod.c | 165 +++++++++++++++++++++++++++--------------
 1 file changed, 109 insertions(+), 56 deletions(-)

diff --git a/libsrc/stdlib/strtod.c b/libsrc/stdlib/strtod.c
index 9957d7c..95bc7df 100644
--- a/libsrc/stdlib/strtod.c
+++ b/libsrc/stdlib/strtod.c
@@ -18,36 +18,117 @@ static double ipow(double base, long x) {
   return result;
 }
 
-static double strtod_i(const char *p, const char **pp) {
-  double result = 0;
-  for (;; ++p) {
-    char c = *p;
-    if (!(c >= '0' && c <= '9'))
-      break;
-    result = result * 10 + (c - '0');
+// Parse the exponent part after `c`, and advance the pointer only if it has digits.
+static long parse_exponent(const char **pp, char c) {
+  const char *p = *pp;
+  if (tolower(*p) != c)
+    return 0;
+  ++p;
+  bool neg = _parse_sign(&p);
+  if (!(*p >= '0' && *p <= '9'))
+    return 0;
+  long order = 0;
+  for (; *p >= '0' && *p <= '9'; ++p) {
+    if (order < 100000)
+      order = order * 10 + (*p - '0');
   }
   *pp = p;
-  return result;
+  return neg ? -order : order;
+}
+
+// Fixed point number: 44 words (32 bits each) for fraction, and the rest for integer part.
+#define FRAC_WORDS  (44)
+#define WORDS       (FRAC_WORDS + 40)
+
+static void bn_muladd(uint32_t *w, uint32_t m, uint32_t a) {
+  uint64_t carry = a;
+  for (int i = FRAC_WORDS; i < WORDS; ++i) {
+    carry += (uint64_t)w[i] * m;
+    w[i] = carry;
+    carry >>= 32;
+  }
+}
+
+static uint32_t bn_div(uint32_t *w, uint32_t d) {
+  uint64_t rem = 0;
+  for (int i = WORDS; --i >= 0; ) {
+    rem = (rem << 32) | w[i];
+    w[i] = rem / d;
+    rem %= d;
+  }
+  return rem;
+}
+
+// Round to nearest even.
+static double bn_to_double(const uint32_t *w, bool sticky) {
+  int bit = WORDS * 32 - 1;
+  while (bit >= 0 && ((w[bit / 32] >> (bit % 32)) & 1) == 0)
+    --bit;
+  if (bit < 0)
+    return 0;
+
+  int expo = bit - FRAC_WORDS * 32 + 1023;
+  if (expo >= 2047)
+    return 1.0 / 0.0;
+  if (expo <= 0) {  // Subnormal.
+    bit += 1 - expo;
+    expo = 0;
+  }
+  uint64_t m = 0;
+  for (int i = 0; i < 53; ++i, --bit)
+    m = (m << 1) | (bit < WORDS * 32 ? (w[bit / 32] >> (bit % 32)) & 1 : 0);
+  bool half = (w[bit / 32] >> (bit % 32)) & 1;
+  for (int i = 0; i < bit && !sticky; ++i)
+    sticky = (w[i / 32] >> (i % 32)) & 1;
+  if (expo > 0)
+    m -= (uint64_t)1 << 52;
+  m += (uint64_t)expo << 52;
+  if (half && (sticky || (m & 1) != 0))
+    ++m;
+
+  union { uint64_t u; double d; } u = {.u = m};
+  return u.d;
 }
 
-static double strtod_i2(const char *p, const char **pp) {
-  const char *q = p, *r = p;
-  for (;;) {
-    char c = *q;
+static double strtod_dec(const char *p, const char **pp) {
+  uint32_t w[WORDS];
+  memset(w, 0, sizeof(w));
+  long order = 0;
+  int count = 0;
+  bool digit = false, dot = false, sticky = false;
+  for (;; ++p) {
+    char c = *p;
+    if (c == '.' && !dot) {
+      dot = true;
+      continue;
+    }
     if (!(c >= '0' && c <= '9'))
       break;
-    ++q;
-    if (c != '0')
-      r = q;
+    digit = true;
+    if (count < 40) {
+      bn_muladd(w, 10, c - '0');
+      if (count > 0 || c != '0')
+        ++count;
+      order -= dot;
+    } else {
+      sticky |= c != '0';
+      order += !dot;
+    }
   }
+  if (!digit)
+    return 0;
+  order += parse_exponent(&p, 'e');
+  *pp = p;
 
-  double result = 0;
-  for (size_t order = r - p; r > p; --order) {
-    char c = *(--r);
-    result += (c - '0') / ipow(10, order);
-  }
-  *pp = q;
-  return result;
+  if (count == 0 || order < -400)
+    return 0;
+  if (order > 310)
+    return 1.0 / 0.0;
+  for (; order > 0; --order)
+    bn_muladd(w, 10, 0);
+  for (; order < 0; ++order)
+    sticky |= bn_div(w, 10) != 0;
+  return bn_to_double(w, sticky);
 }
 
 #define strtod_h(p, pp)  strtoull(p, (char**)(pp), 16)
@@ -60,20 +141,11 @@ static double strtod_hex(const char *p, const char **pp) {
     long order = p - q;
     result += frac * ipow(1.0f / 16, order);
   }
-  if (tolower(*p) == 'p') {
-    const char *q = p + 1;
-    bool neg2 = _parse_sign(&q);
-    double order = strtod_i(q, &p);
-    if (q == p) {
-      // Error.
-    } else {
-      double k = ipow(2, order);
-      if (neg2)
-        result /= k;
-      else
-        result *= k;
-    }
-  }
+  long order = parse_exponent(&p, 'p');
+  if (order < 0)
+    result /= ipow(2, -order);
+  else
+    result *= ipow(2, order);
   *pp = p;
   return result;
 }
@@ -113,26 +185,7 @@ double strtod(const char * restrict p_, char ** restrict pp) {
     result = strtod_hex(p, &p);
   } else {
     op = p;
-    result = strtod_i(p, &p);
-    if (*p == '.') {
-      const char *q = p + 1;
-      double frac = strtod_i2(q, &p);
-      result += frac;
-    }
-    if (tolower(*p) == 'e') {
-      const char *q = p + 1;
-      bool neg2 = _parse_sign(&q);
-      double order = strtod_i(q, &p);
-      if (q == p) {
-        // Error.
-      } else {
-        double k = ipow(10, order);
-        if (neg2)
-          result /= k;
-        else
-          result *= k;
-      }
-    }
+    result = strtod_dec(p, &p);
   }
   if (p == op)
     p = orig;
-- 
2.43.0


From 5a684dd1996f029bffa9415cc19ca378019b6dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:29 +0000
Subject: [PATCH 21/26] fix: wasm: stat follows symbolic links, lstat does not

---
 libsrc/_wasm/unistd/lstat.c | 5 +++--
 libsrc/_wasm/unistd/stat.c  | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/libsrc/_wasm/unistd/lstat.c b/libsrc/_wasm/unistd/lstat.c
index bbe1a3d..a53579b 100644
--- a/libsrc/_wasm/unistd/lstat.c
+++ b/libsrc/_wasm/unistd/lstat.c
@@ -1,6 +1,7 @@
 #include "sys/stat.h"
 
+extern int _stat(const char *fn, struct stat *st, int lookupflags);
+
 int lstat(const char *fn, struct stat *st) {
-  // TODO: Handle symbolic link?
-  return stat(fn, st);
+  return _stat(fn, st, 0);
 }
diff --git a/libsrc/_wasm/unistd/stat.c b/libsrc/_wasm/unistd/stat.c
index 47cfc6c..1b642c5 100644
--- a/libsrc/_wasm/unistd/stat.c
+++ b/libsrc/_wasm/unistd/stat.c
@@ -7,7 +7,7 @@ extern int __max_preopen_fd;
 
 extern void _set_stat(Filestat *fs, struct stat *st);
 
-int stat(const char *fn, struct stat *st) {
+int _stat(const char *fn, struct stat *st, int lookupflags) {
   memset(st, 0, sizeof(*st));
   size_t fnlen = strlen(fn);
   for (int base_fd = 3; base_fd < __max_preopen_fd; ++base_fd) {
@@ -42,7 +42,7 @@ int stat(const char *fn, struct stat *st) {
     }
 
     Filestat fs;
-    uint32_t result = path_filestat_get(base_fd, 0, fn2, fnlen2, &fs);
+    uint32_t result = path_filestat_get(base_fd, lookupflags, fn2, fnlen2, &fs);
     if (result == 0) {
       _set_stat(&fs, st);
       return 0;
@@ -51,3 +51,7 @@ int stat(const char *fn, struct stat *st) {
   errno = ENOENT;
   return -1;
 }
+
+int stat(const char *fn, struct stat *st) {
+  return _stat(fn, st, LOOKUPFLAGS_SYMLINK_FOLLOW);
+}
-- 
2.43.0


From 9d790a87aba641580c595a1afa2d793d0ea5a244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:40 +0000
Subject: [PATCH 22/26] fix: Do not take another header or library of the same
 name if a stat fails

cpp, wcc and ld took any failure of stat (EIO, EACCES) for a missing
file, and went on with the next directory of the search path: exit
status 0 with a different output.
---
 libsrc/_wasm/unistd/stat.c | 15 ++++++++++++---
 libsrc/_wasm/wasi.h        |  5 ++++-
 src/cpp/preprocessor.c     |  4 ++--
 src/ld/ld.c                |  2 +-
 src/util/util.c            | 10 ++++++++++
 src/util/util.h            |  1 +
 src/wcc/wcc.c              |  4 ++--
 7 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/libsrc/_wasm/unistd/stat.c b/libsrc/_wasm/unistd/stat.c
index 1b642c5..8bfcb47 100644
--- a/libsrc/_wasm/unistd/stat.c
+++ b/libsrc/_wasm/unistd/stat.c
@@ -10,14 +10,21 @@ extern void _set_stat(Filestat *fs, struct stat *st);
 int _stat(const char *fn, struct stat *st, int lookupflags) {
   memset(st, 0, sizeof(*st));
   size_t fnlen = strlen(fn);
+  int err = ENOENT;
   for (int base_fd = 3; base_fd < __max_preopen_fd; ++base_fd) {
     Prestat prestat;
-    if (fd_prestat_get(base_fd, &prestat) != 0)
+    if (fd_prestat_get(base_fd, &prestat) != 0) {
+      err = EIO;
       continue;
+    }
     size_t l = prestat.u.dir.pr_name_len;  // Includes '\0' or not, depending on the environment,
     char buf[256];
-    if (l >= sizeof(buf) || fd_prestat_dir_name(base_fd, buf, l) != 0)
+    if (l >= sizeof(buf))
+      continue;
+    if (fd_prestat_dir_name(base_fd, buf, l) != 0) {
+      err = EIO;
       continue;
+    }
     buf[l] = '\0';
 
     if ((*fn == '/' && *buf != '/') ||
@@ -47,8 +54,10 @@ int _stat(const char *fn, struct stat *st, int lookupflags) {
       _set_stat(&fs, st);
       return 0;
     }
+    if (result != WASI_ENOENT && result != WASI_ENOTDIR && result != WASI_ENOTCAPABLE)
+      err = EIO;
   }
-  errno = ENOENT;
+  errno = err;
   return -1;
 }
 
diff --git a/libsrc/_wasm/wasi.h b/libsrc/_wasm/wasi.h
index b81a97c..9954f7b 100644
--- a/libsrc/_wasm/wasi.h
+++ b/libsrc/_wasm/wasi.h
@@ -6,7 +6,10 @@
 #define WASI_MODULE  __attribute__((import_module("wasi_snapshot_preview1")))
 
 // Errno
-#define WASI_EEXIST  (20)
+#define WASI_EEXIST       (20)
+#define WASI_ENOENT       (44)
+#define WASI_ENOTDIR      (54)
+#define WASI_ENOTCAPABLE  (76)
 
 // Fdflags
 #define FDFLAGS_APPEND           (1 << 0)
diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 2e98297..c54fa33 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -272,7 +272,7 @@ static FILE *search_sysinc(const char *prevdir, const char *path, char **pfn) {
       FILE *fp = NULL;
       char *fn = cat_path_cwd(v->data[idx], path);
       bool once = registered_pragma_once(fn);  // If pragma once hit, then fp keeps NULL.
-      if (once || is_file(fn)) {
+      if (once || search_file(fn)) {
         if (!once && (fp = fopen(fn, "r")) == NULL)
           error("Cannot open file: %s", fn);
         *pfn = fn;
@@ -362,7 +362,7 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
     fn = cat_path_cwd(dir, path);
     if (registered_pragma_once(fn))
       return;
-    if (is_file(fn) && (fp = fopen(fn, "r")) == NULL)
+    if (search_file(fn) && (fp = fopen(fn, "r")) == NULL)
       error("Cannot open file: %s", fn);
   }
   if (fp == NULL) {
diff --git a/src/ld/ld.c b/src/ld/ld.c
index a58c0fb..1333239 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -867,7 +867,7 @@ static const char *search_library(Vector *lib_paths, const char *libname) {
   for (int i = 0; i < lib_paths->len; ++i) {
     const char *dir = lib_paths->data[i];
     const char *path = JOIN_PATHS(dir, libfn);
-    if (is_file(path)) {
+    if (search_file(path)) {
       return path;
     }
   }
diff --git a/src/util/util.c b/src/util/util.c
index dfaa0a4..6bfa390 100644
--- a/src/util/util.c
+++ b/src/util/util.c
@@ -2,6 +2,7 @@
 
 #include <assert.h>
 #include <ctype.h>
+#include <errno.h>
 #include <stdarg.h>
 #include <stdbool.h>
 #include <stdlib.h>  // malloc
@@ -277,6 +278,15 @@ bool is_file(const char *path) {
   return stat(path, &st) == 0 && S_ISREG(st.st_mode);  // Include symbolic link, too.
 }
 
+bool search_file(const char *path) {
+  struct stat st;
+  if (stat(path, &st) == 0)
+    return S_ISREG(st.st_mode);
+  if (errno != ENOENT && errno != ENOTDIR)
+    error("Cannot access file: %s", path);  // Going on might take another file of the same name.
+  return false;
+}
+
 static const char *unfinished_outputs[2];
 static int unfinished_output_count;
 
diff --git a/src/util/util.h b/src/util/util.h
index dabd1f8..a0fa84e 100644
--- a/src/util/util.h
+++ b/src/util/util.h
@@ -44,6 +44,7 @@ char *get_ext(const char *filename);
 char *change_ext(const char *path, const char *ext);
 void put_padding(FILE *fp, long start);
 bool is_file(const char *path);
+bool search_file(const char *path);  // Same as `is_file`, but exits if existence is not known.
 void add_unfinished_output(const char *path);  // Removed at exit, unless finished.
 void finish_outputs(void);
 void close_output(FILE *fp);  // Die if some of the output could not be written.
diff --git a/src/wcc/wcc.c b/src/wcc/wcc.c
index 8c47950..3ecf949 100644
--- a/src/wcc/wcc.c
+++ b/src/wcc/wcc.c
@@ -76,7 +76,7 @@ static void remove_tmp_files(void) {
 static bool add_lib(Vector *lib_paths, const char *fn, Vector *sources) {
   for (int i = 0; i < lib_paths->len; ++i) {
     char *path = JOIN_PATHS(lib_paths->data[i], fn);
-    if (is_file(path)) {
+    if (search_file(path)) {
       vec_push(sources, path);
       return true;
     }
@@ -93,7 +93,7 @@ static const char *search_library(Vector *lib_paths, const char *libname) {
   for (int i = 0; i < lib_paths->len; ++i) {
     const char *dir = lib_paths->data[i];
     const char *path = JOIN_PATHS(dir, libfn);
-    if (is_file(path)) {
+    if (search_file(path)) {
       return path;
     }
   }
-- 
2.43.0


From 94545b04cdb51d63ae13b07dc62183670b103990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:30 +0000
Subject: [PATCH 23/26] fix: Keep NaN quiet and build it the same with 32-bit
 long in __builtin_nan

`u.d = NAN` may be a signaling-NaN-like pattern in a self-hosted compiler, and
`1UL << 52` is a 32-bit shift in the compiler for wasm.
---
 src/cc/builtin.c   | 2 +-
 src/wcc/gen_wasm.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/builtin.c b/src/cc/builtin.c
index 8be2b3e..1f76f01 100644
--- a/src/cc/builtin.c
+++ b/src/cc/builtin.c
@@ -50,7 +50,7 @@ static Expr *proc_builtin_nan(const Token *ident) {
     parse_error(PE_NOFATAL, fmt->token, "String literal expected");
   }
 
-  const uint64_t MASK = (1UL << 52) - 1UL;
+  const uint64_t MASK = (1ULL << 51) - 1ULL;  // Keep the quiet bit.
   union { double d; uint64_t q; } u;
   u.d = NAN;
   u.q = (u.q & ~MASK) | (significand & MASK);
diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 4d1bf71..8783140 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -1965,7 +1965,7 @@ static Expr *proc_builtin_nan(const Token *ident) {
     parse_error(PE_NOFATAL, fmt->token, "String literal expected");
   }
 
-  const uint64_t MASK = (1UL << 52) - 1UL;
+  const uint64_t MASK = (1ULL << 51) - 1ULL;  // Keep the quiet bit.
   union { double d; uint64_t q; } u;
   u.d = NAN;
   u.q = (u.q & ~MASK) | (significand & MASK);
-- 
2.43.0


From 6a2dc3fe7ab04cc437c28f67eb268b43c194fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:30 +0000
Subject: [PATCH 24/26] fix: ld: Make the output executable even if the file
 exists already

---
 src/ld/ld.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index 1333239..43c8f27 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -684,6 +684,14 @@ static bool output_exe(const char *ofn, uint64_t entry_address,
       return false;
     }
     add_unfinished_output(ofn);
+    // An existing file keeps its mode, so make it executable for those who can read it.
+    struct stat st;
+    if (fstat(fd, &st) != 0 ||
+        (S_ISREG(st.st_mode) && !(st.st_mode & (S_IXUSR | S_IXGRP | S_IXOTH)) &&
+         chmod(ofn, (st.st_mode | (st.st_mode & (S_IRUSR | S_IRGRP | S_IROTH)) >> 2) & 07777) != 0)) {
+      perror("Failed to make output executable");
+      return false;
+    }
     fp = fdopen(fd, "wb");
     if (fp == NULL)
       error("Failed to open output file");
-- 
2.43.0


From 302061ae1f3f8e155d92ec44d8fd93bdd7394067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:59 +0000
Subject: [PATCH 25/26] fix: libc: strtod rounds correctly however many digits
 are given, also in hexadecimal

---
 libsrc/stdlib/strtod.c | 73 +++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 30 deletions(-)

diff --git a/libsrc/stdlib/strtod.c b/libsrc/stdlib/strtod.c
index 95bc7df..5dddc02 100644
--- a/libsrc/stdlib/strtod.c
+++ b/libsrc/stdlib/strtod.c
@@ -8,16 +8,6 @@
 extern bool _parse_sign(const char **pp);
 
 #ifndef __NO_FLONUM
-static double ipow(double base, long x) {
-  double result = 1;
-  double a = base;
-  for (; x > 0; x >>= 1, a *= a) {
-    if ((x & 1) != 0)
-      result *= a;
-  }
-  return result;
-}
-
 // Parse the exponent part after `c`, and advance the pointer only if it has digits.
 static long parse_exponent(const char **pp, char c) {
   const char *p = *pp;
@@ -38,7 +28,8 @@ static long parse_exponent(const char **pp, char c) {
 
 // Fixed point number: 44 words (32 bits each) for fraction, and the rest for integer part.
 #define FRAC_WORDS  (44)
-#define WORDS       (FRAC_WORDS + 40)
+#define WORDS       (FRAC_WORDS + 84)
+#define MAX_DIGITS  (800)  // 768 digits are enough to decide rounding.
 
 static void bn_muladd(uint32_t *w, uint32_t m, uint32_t a) {
   uint64_t carry = a;
@@ -105,7 +96,7 @@ static double strtod_dec(const char *p, const char **pp) {
     if (!(c >= '0' && c <= '9'))
       break;
     digit = true;
-    if (count < 40) {
+    if (count < MAX_DIGITS) {
       bn_muladd(w, 10, c - '0');
       if (count > 0 || c != '0')
         ++count;
@@ -120,9 +111,9 @@ static double strtod_dec(const char *p, const char **pp) {
   order += parse_exponent(&p, 'e');
   *pp = p;
 
-  if (count == 0 || order < -400)
+  if (count == 0 || order + count < -330)
     return 0;
-  if (order > 310)
+  if (order + count > 310)
     return 1.0 / 0.0;
   for (; order > 0; --order)
     bn_muladd(w, 10, 0);
@@ -131,23 +122,44 @@ static double strtod_dec(const char *p, const char **pp) {
   return bn_to_double(w, sticky);
 }
 
-#define strtod_h(p, pp)  strtoull(p, (char**)(pp), 16)
-
 static double strtod_hex(const char *p, const char **pp) {
-  double result = strtod_h(p, &p);
-  if (*p == '.') {
-    const char *q = p + 1;
-    unsigned long long frac = strtod_h(q, &p);
-    long order = p - q;
-    result += frac * ipow(1.0f / 16, order);
+  uint64_t m = 0;
+  long order = 0;
+  bool digit = false, dot = false, sticky = false;
+  for (;; ++p) {
+    char c = *p;
+    if (c == '.' && !dot) {
+      dot = true;
+      continue;
+    }
+    if (!isxdigit(c))
+      break;
+    digit = true;
+    int d = c <= '9' ? c - '0' : tolower(c) - 'a' + 10;
+    if ((m >> 60) == 0) {
+      m = (m << 4) | d;
+      order -= dot ? 4 : 0;
+    } else {
+      sticky |= d != 0;
+      order += dot ? 0 : 4;
+    }
   }
-  long order = parse_exponent(&p, 'p');
-  if (order < 0)
-    result /= ipow(2, -order);
-  else
-    result *= ipow(2, order);
+  if (!digit)
+    return 0;
+  order += parse_exponent(&p, 'p');
   *pp = p;
-  return result;
+
+  if (m == 0 || order < -1300)
+    return 0;
+  if (order > 1024)
+    return 1.0 / 0.0;
+  uint32_t w[WORDS];
+  memset(w, 0, sizeof(w));
+  for (int i = 0; i < 64; ++i) {
+    int bit = FRAC_WORDS * 32 + order + i;
+    w[bit / 32] |= (uint32_t)((m >> i) & 1) << (bit % 32);
+  }
+  return bn_to_double(w, sticky);
 }
 
 double strtod(const char * restrict p_, char ** restrict pp) {
@@ -180,7 +192,8 @@ double strtod(const char * restrict p_, char ** restrict pp) {
 
   const char *op;
   double result;
-  if (p[0] == '0' && tolower(p[1]) == 'x') {
+  if (p[0] == '0' && tolower(p[1]) == 'x' &&
+      (isxdigit(p[2]) || (p[2] == '.' && isxdigit(p[3])))) {
     op = p += 2;
     result = strtod_hex(p, &p);
   } else {
@@ -189,7 +202,7 @@ double strtod(const char * restrict p_, char ** restrict pp) {
   }
   if (p == op)
     p = orig;
-  if (neg)
+  else if (neg)
     result = -result;
 
   if (pp != NULL)
-- 
2.43.0


From 33e9dc39b4753e51c158f4fd55ce5c396c295dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:59 +0000
Subject: [PATCH 26/26] fix: Evaluate floating constants in double on every
 host

long double of the target is double, but a compiler built on a host whose long
double is wider folded constants in it, and made other code than the same
compiler built by itself: 0.1 + 0.2 was 0.3.
---
 src/_debug/dump_expr.c  | 2 +-
 src/as/parse_asm.c      | 6 ------
 src/as/parse_asm.h      | 2 +-
 src/cc/frontend/ast.h   | 2 +-
 src/cc/frontend/lexer.c | 6 ------
 5 files changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/_debug/dump_expr.c b/src/_debug/dump_expr.c
index c017eeb..3b3ddc1 100644
--- a/src/_debug/dump_expr.c
+++ b/src/_debug/dump_expr.c
@@ -114,7 +114,7 @@ void dump_expr(FILE *fp, Expr *expr) {
 #ifndef __NO_FLONUM
     {
       char buf[64];
-      snprintf(buf, sizeof(buf) - 4, "%Lg", expr->flonum);
+      snprintf(buf, sizeof(buf) - 4, "%g", expr->flonum);
       if (strchr(buf, '.') == NULL)
         strcat(buf, ".0");
       switch (expr->type->flonum.kind) {
diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 3618036..4e09570 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -300,13 +300,7 @@ static Token *new_token(enum TokenKind kind) {
 static Token *read_flonum(ParseInfo *info, int base) {
   const char *start = info->p;
   char *next;
-#ifdef __XCC
-  // long double in XCC is same as double, and if the target platform uses
-  // system library, it makes discrepancy.
   Flonum val = strtod(start, &next);
-#else
-  Flonum val = strtold(start, &next);
-#endif
   Token *tok = new_token(TK_FLONUM);
   tok->flonum = val;
   info->p = next;
diff --git a/src/as/parse_asm.h b/src/as/parse_asm.h
index 1e2a78b..262b146 100644
--- a/src/as/parse_asm.h
+++ b/src/as/parse_asm.h
@@ -117,7 +117,7 @@ enum ExprKind {
 };
 
 #ifndef __NO_FLONUM
-typedef long double Flonum;
+typedef double Flonum;  // long-double in XCC is same as double.
 #endif
 
 typedef struct Expr {
diff --git a/src/cc/frontend/ast.h b/src/cc/frontend/ast.h
index 347fb40..4995688 100644
--- a/src/cc/frontend/ast.h
+++ b/src/cc/frontend/ast.h
@@ -23,7 +23,7 @@ typedef int64_t  Fixnum;
 typedef uint64_t UFixnum;
 
 #ifndef __NO_FLONUM
-typedef long double Flonum;
+typedef double Flonum;  // long-double in XCC is same as double.
 #endif
 
 enum StrKind {
diff --git a/src/cc/frontend/lexer.c b/src/cc/frontend/lexer.c
index 5db0431..e950bc4 100644
--- a/src/cc/frontend/lexer.c
+++ b/src/cc/frontend/lexer.c
@@ -393,13 +393,7 @@ static const char *skip_whitespace_or_comment(const char *p) {
 static Token *read_flonum(const char **pp, int base) {
   const char *start = *pp;
   char *next;
-#ifdef __XCC
-  // long double in XCC is same as double, and if the target platform uses
-  // system library, it makes discrepancy.
   Flonum val = strtod(start, &next);
-#else
-  Flonum val = strtold(start, &next);
-#endif
   enum TokenKind tk = TK_DOUBLELIT;
   switch (tolower(*next)) {
   case 'f':
-- 
2.43.0

