From 2db44008753d3589928e2f09d1df6841073e2426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:21 +0000
Subject: [PATCH 01/17] fix: GB18030:2005 encoder wrote four bytes into a
 two-byte buffer

---
 lib/converters/gb18030_2005.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/converters/gb18030_2005.h b/lib/converters/gb18030_2005.h
index 649b3ea..803ec8b 100644
--- a/lib/converters/gb18030_2005.h
+++ b/lib/converters/gb18030_2005.h
@@ -399,6 +399,8 @@ static int gb18030_2005_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t
                         }
                         else
                         {
+                            if (n < 4)
+                                return RET_TOOSMALL;
                             r[0] = (c >> 24);
                             r[1] = (c >> 16) & 0xff;
                             r[2] = (c >> 8) & 0xff;
-- 
2.43.0


From 564973c68095b0b157bd5d00674bbcd2324be332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:21 +0000
Subject: [PATCH 02/17] fix: flushing a pending character with no room left
 wrote past the output buffer

---
 lib/loop_unicode.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/loop_unicode.h b/lib/loop_unicode.h
index 3753ec1..6fa411a 100644
--- a/lib/loop_unicode.h
+++ b/lib/loop_unicode.h
@@ -178,7 +178,14 @@ static size_t unicode_loop_reset(reiconv_t icd, char **outbuf, size_t *outbytesl
             {
                 unsigned char *outptr = (unsigned char *)*outbuf;
                 size_t outleft = *outbytesleft;
-                int outcount = cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft);
+                int outcount;
+                if (outleft == 0)
+                {
+                    cd->istate = last_istate;
+                    errno = E2BIG;
+                    return -1;
+                }
+                outcount = cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft);
                 if (outcount != RET_ILUNI)
                     goto outcount_ok;
                 /* Handle Unicode tag characters (range U+E0000..U+E007F). */
-- 
2.43.0


From e64089d738f1bc9d01eae0466dd88f47f1e9b78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:21 +0000
Subject: [PATCH 03/17] fix: codepage lookup read outside its table for unknown
 codepages

---
 lib/iconv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index d2cd52e..e75db32 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -83,6 +83,10 @@ _CPPP_API int reiconv_lookup_from_name(const char *encoding)
 
 _CPPP_API int reiconv_lookup_from_codepage(int codepage)
 {
+    if (codepage < 0 || (size_t)codepage >= sizeof(codepage_to_eindex) / sizeof(codepage_to_eindex[0]))
+    {
+        return -1;
+    }
     return codepage_to_eindex[codepage] - 1;
 }
 
-- 
2.43.0


From 93f349f4a901cefe659aa2014b43dfe67a4b9454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:21 +0000
Subject: [PATCH 04/17] fix: HZ encoder did not escape the tilde

---
 lib/converters/hz.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/converters/hz.h b/lib/converters/hz.h
index 583fdf7..f652edf 100644
--- a/lib/converters/hz.h
+++ b/lib/converters/hz.h
@@ -134,7 +134,8 @@ static int hz_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
             abort();
         if (buf[0] < 0x80)
         {
-            int count = (state ? 3 : 1);
+            /* A literal tilde is written as "~~". */
+            int count = (state ? 3 : 1) + (buf[0] == '~' ? 1 : 0);
             if (n < count)
                 return RET_TOOSMALL;
             if (state)
@@ -144,6 +145,10 @@ static int hz_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
                 r += 2;
                 state = 0;
             }
+            if (buf[0] == '~')
+            {
+                *r++ = '~';
+            }
             r[0] = buf[0];
             conv->ostate = state;
             return count;
-- 
2.43.0


From 5a319ecc570abe91942c59e691eb2415f2add378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:37 +0000
Subject: [PATCH 05/17] fix: long encoding names overflowed a stack buffer

---
 lib/iconv.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index e75db32..84cad14 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -48,6 +48,23 @@
 
 _CPPP_API struct VersionInfo reiconv_version = {VERSION_MAJOR, VERSION_MINOR, VERSION_PATCH};
 
+/* Room for a canonicalized encoding name, optionally followed by suffixes such as "//IGNORE". */
+#define NAME_BUFFER_SIZE (MAX_WORD_LENGTH + 32)
+
+/* Whether the canonicalized name (with its terminating null) fits in NAME_BUFFER_SIZE bytes. */
+static int name_fits(const char *name)
+{
+    size_t length = 0;
+    for (; *name; name++)
+    {
+        if (*name != '-' && *name != '_' && ++length >= NAME_BUFFER_SIZE)
+        {
+            return 0;
+        }
+    }
+    return 1;
+}
+
 _CPPP_API size_t reiconv_name_canonicalize(const char *name, char *outbuf)
 {
     char *bp = outbuf;
@@ -74,7 +91,11 @@ _CPPP_API size_t reiconv_name_canonicalize(const char *name, char *outbuf)
 
 _CPPP_API int reiconv_lookup_from_name(const char *encoding)
 {
-    char buf[MAX_WORD_LENGTH + 2];
+    char buf[NAME_BUFFER_SIZE];
+    if (!name_fits(encoding))
+    {
+        return -1;
+    }
     size_t buf_len = reiconv_name_canonicalize(encoding, buf);
 
     const struct alias *ap = aliases_lookup(buf, buf_len);
@@ -148,8 +169,14 @@ _CPPP_API reiconv_t reiconv_open_from_name(const char *fromcode, const char *toc
 
 _CPPP_API reiconv_t reiconv_open(const char *tocode, const char *fromcode)
 {
-    char fromcode_buf[MAX_WORD_LENGTH + 2];
-    char tocode_buf[MAX_WORD_LENGTH + 2];
+    char fromcode_buf[NAME_BUFFER_SIZE];
+    char tocode_buf[NAME_BUFFER_SIZE];
+
+    if (!name_fits(fromcode) || !name_fits(tocode))
+    {
+        errno = EINVAL;
+        return (reiconv_t)(-1);
+    }
 
     size_t fromcode_len = reiconv_name_canonicalize(fromcode, fromcode_buf);
     size_t tocode_len = reiconv_name_canonicalize(tocode, tocode_buf);
-- 
2.43.0


From 562324ebf12a2c577e66457d138f1b25f394074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:03 +0000
Subject: [PATCH 06/17] fix: reiconv_result_size left the descriptor in a
 changed state

---
 lib/iconv.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index 84cad14..c2d53a4 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -237,6 +237,7 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
 {
     size_t count = 0;
     char tmpbuf[TEMP_BUFFER_SIZE];
+    state_t last_ibyteorder = ((conv_t)cd)->ibyteorder;
     char *inptr = (char *)start;
     size_t insize = inlength;
     while (insize > 0)
@@ -250,6 +251,9 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
             {
                 errno = EILSEQ;
             }
+            // Return to the initial state.
+            reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+            ((conv_t)cd)->ibyteorder = last_ibyteorder;
             return (size_t)(-1);
         }
         count += outptr - tmpbuf;
@@ -261,9 +265,11 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
     {
         // Return to the initial state.
         reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+        ((conv_t)cd)->ibyteorder = last_ibyteorder;
         return (size_t)(-1);
     }
     reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+    ((conv_t)cd)->ibyteorder = last_ibyteorder;
     return count + outptr - tmpbuf;
 }
 
-- 
2.43.0


From d592a29f4dbae751d99db7e9db281c2ecaf19cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:03 +0000
Subject: [PATCH 07/17] fix: reiconv_convert_static_size left the descriptor in
 a changed state on error

---
 lib/iconv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index c2d53a4..02730a5 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -291,12 +291,16 @@ _CPPP_API int reiconv_convert_static_size(reiconv_t cd, const char *input_data,
             }
             else
             {
+                // Return to the initial state.
+                reiconv_iconv(cd, NULL, NULL, NULL, NULL);
                 return -1;
             }
         }
     }
     if (reiconv_iconv(cd, NULL, NULL, &outptr, &outsize) == (size_t)(-1))
     {
+        // Return to the initial state.
+        reiconv_iconv(cd, NULL, NULL, NULL, NULL);
         return -1;
     }
     return 0;
-- 
2.43.0


From 35de8563aa1e5dc013976967d7d323d4fcb61307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:03 +0000
Subject: [PATCH 08/17] fix: reiconv_convert_static_size reported success for
 truncated input

---
 lib/iconv.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index 02730a5..09e8ae8 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -287,14 +287,12 @@ _CPPP_API int reiconv_convert_static_size(reiconv_t cd, const char *input_data,
         {
             if (errno == EINVAL)
             {
-                break;
-            }
-            else
-            {
-                // Return to the initial state.
-                reiconv_iconv(cd, NULL, NULL, NULL, NULL);
-                return -1;
+                // Incomplete input, as in reiconv_result_size.
+                errno = EILSEQ;
             }
+            // Return to the initial state.
+            reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+            return -1;
         }
     }
     if (reiconv_iconv(cd, NULL, NULL, &outptr, &outsize) == (size_t)(-1))
-- 
2.43.0


From 483e0077b63e97460ca2a53787bbf5c7ff6ac5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:16 +0000
Subject: [PATCH 09/17] fix: converting into a buffer of exactly the result
 size failed with E2BIG

---
 lib/iconv.c | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index 09e8ae8..46eb537 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -273,6 +273,37 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
     return count + outptr - tmpbuf;
 }
 
+/* Like reiconv_iconv, but fails with E2BIG only if the result really does not fit: a converter may ask for more room
+   than a character takes in the end (it takes none if it is dropped). */
+static size_t convert_exact(reiconv_t cd, char **inbuf, size_t *inbytesleft, char **outbuf, size_t *outbytesleft)
+{
+    size_t res = reiconv_iconv(cd, inbuf, inbytesleft, outbuf, outbytesleft);
+    if (res == (size_t)(-1) && errno == E2BIG)
+    {
+        char tmpbuf[TEMP_BUFFER_SIZE];
+        char *tmpptr = tmpbuf;
+        size_t tmpsize = TEMP_BUFFER_SIZE;
+        res = reiconv_iconv(cd, inbuf, inbytesleft, &tmpptr, &tmpsize);
+        size_t length = tmpptr - tmpbuf;
+        if (length > *outbytesleft)
+        {
+            errno = E2BIG;
+            return (size_t)(-1);
+        }
+        if (length > 0)
+        {
+            memcpy(*outbuf, tmpbuf, length);
+            *outbuf += length;
+            *outbytesleft -= length;
+        }
+        if (res == (size_t)(-1) && errno == E2BIG)
+        {
+            res = 0; // The temporary buffer is full, go on.
+        }
+    }
+    return res;
+}
+
 _CPPP_API int reiconv_convert_static_size(reiconv_t cd, const char *input_data, size_t input_length, char *output_data,
                                           size_t output_length)
 {
@@ -282,7 +313,7 @@ _CPPP_API int reiconv_convert_static_size(reiconv_t cd, const char *input_data,
     size_t outsize = output_length;
     while (insize > 0)
     {
-        size_t res = reiconv_iconv(cd, &inptr, &insize, &outptr, &outsize);
+        size_t res = convert_exact(cd, &inptr, &insize, &outptr, &outsize);
         if (res == (size_t)(-1))
         {
             if (errno == EINVAL)
@@ -295,7 +326,7 @@ _CPPP_API int reiconv_convert_static_size(reiconv_t cd, const char *input_data,
             return -1;
         }
     }
-    if (reiconv_iconv(cd, NULL, NULL, &outptr, &outsize) == (size_t)(-1))
+    if (convert_exact(cd, NULL, NULL, &outptr, &outsize) == (size_t)(-1))
     {
         // Return to the initial state.
         reiconv_iconv(cd, NULL, NULL, NULL, NULL);
-- 
2.43.0


From 206bf744beae79b2da33d7333e482326e3d98685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:16 +0000
Subject: [PATCH 10/17] fix: reiconv_convert did not check for allocation
 failure and lost the old buffer

---
 lib/iconv.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index 46eb537..5d57250 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -355,8 +355,16 @@ _CPPP_API int reiconv_convert(reiconv_t cd, const char *input_data, size_t input
         return -1;
     }
 
-    *output_data_ptr =
-        (*output_data_ptr == NULL ? (char *)malloc(output_length) : (char *)realloc(*output_data_ptr, output_length));
+    // Never ask for 0 bytes: the result of that may be NULL.
+    size_t alloc_size = output_length > 0 ? output_length : 1;
+    char *output_data =
+        (*output_data_ptr == NULL ? (char *)malloc(alloc_size) : (char *)realloc(*output_data_ptr, alloc_size));
+    if (output_data == NULL)
+    {
+        errno = ENOMEM;
+        return -1;
+    }
+    *output_data_ptr = output_data;
 
     if (reiconv_convert_static_size(cd, input_data, input_length, *output_data_ptr, output_length) == -1)
     {
-- 
2.43.0


From f2962cf3c34ac40a5572abbb2cabd132fcfa3085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:16 +0000
Subject: [PATCH 11/17] fix: reiconv_convert accepted a null length pointer,
 which is documented as an error

---
 lib/iconv.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index 5d57250..28d467a 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -338,23 +338,20 @@ _CPPP_API int reiconv_convert_static_size(reiconv_t cd, const char *input_data,
 _CPPP_API int reiconv_convert(reiconv_t cd, const char *input_data, size_t input_length, char **output_data_ptr,
                               size_t *output_length_ptr)
 {
-    size_t output_length = reiconv_result_size(cd, input_data, input_length);
-    if (output_length == (size_t)(-1))
+    if (output_data_ptr == NULL || output_length_ptr == NULL)
     {
+        errno = EINVAL;
         return -1;
     }
 
-    if (output_length_ptr != NULL)
-    {
-        *output_length_ptr = output_length;
-    }
-
-    if (output_data_ptr == NULL)
+    size_t output_length = reiconv_result_size(cd, input_data, input_length);
+    if (output_length == (size_t)(-1))
     {
-        errno = EINVAL;
         return -1;
     }
 
+    *output_length_ptr = output_length;
+
     // Never ask for 0 bytes: the result of that may be NULL.
     size_t alloc_size = output_length > 0 ? output_length : 1;
     char *output_data =
-- 
2.43.0


From 91b1f14a3844d61cf26bcc543840c03913f51281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:16 +0000
Subject: [PATCH 12/17] fix: reiconv::convert threw the wrong exception for
 invalid input and leaked the descriptor

---
 lib/reiconv.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/reiconv.cpp b/lib/reiconv.cpp
index f1bc597..f33d1ce 100644
--- a/lib/reiconv.cpp
+++ b/lib/reiconv.cpp
@@ -26,6 +26,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <limits.h>
+#include <memory>
 #include <stdexcept>
 #include <system_error>
 
@@ -59,16 +60,19 @@ _CPPP_API std::string reiconv::convert(reiconv::Encoding from, reiconv::Encoding
     {
         throw std::system_error(errno, std::system_category(), "reiconv_open_from_index");
     }
+    std::unique_ptr<void, int (*)(::reiconv_t)> closer(cd, ::reiconv_handle_close);
     std::size_t outlen = ::reiconv_result_size(cd, input.data(), input.size());
+    if (outlen == (std::size_t)(-1))
+    {
+        throw std::system_error(errno, std::system_category(), "reiconv_result_size");
+    }
 
     std::string res(outlen, '\0');
     char *result = const_cast<char *>(res.data());
     if (::reiconv_convert_static_size(cd, input.data(), input.size(), result, outlen) != 0)
     {
-        ::reiconv_handle_close(cd);
         throw std::system_error(errno, std::system_category(), "reiconv_convert");
     }
 
-    ::reiconv_handle_close(cd);
-    return std::move(res);
+    return res;
 }
-- 
2.43.0


From a953e304b3a44f33611d9fa02251a7944f1d0cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:06 +0000
Subject: [PATCH 13/17] fix: converting into a caller's buffer changed bytes
 after the result

---
 lib/iconv.c | 43 ++++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index 28d467a..a0044ce 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -273,33 +273,30 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
     return count + outptr - tmpbuf;
 }
 
-/* Like reiconv_iconv, but fails with E2BIG only if the result really does not fit: a converter may ask for more room
-   than a character takes in the end (it takes none if it is dropped). */
+/* Like reiconv_iconv, but fails with E2BIG only if the result really does not fit, and touches only the bytes of the
+   output buffer that the result takes: a converter may ask for more room than a character takes in the end (it takes
+   none if it is dropped), and may use that room before it gives up. */
 static size_t convert_exact(reiconv_t cd, char **inbuf, size_t *inbytesleft, char **outbuf, size_t *outbytesleft)
 {
-    size_t res = reiconv_iconv(cd, inbuf, inbytesleft, outbuf, outbytesleft);
+    char tmpbuf[TEMP_BUFFER_SIZE];
+    char *tmpptr = tmpbuf;
+    size_t tmpsize = TEMP_BUFFER_SIZE;
+    size_t res = reiconv_iconv(cd, inbuf, inbytesleft, &tmpptr, &tmpsize);
+    size_t length = tmpptr - tmpbuf;
+    if (length > *outbytesleft)
+    {
+        errno = E2BIG;
+        return (size_t)(-1);
+    }
+    if (length > 0)
+    {
+        memcpy(*outbuf, tmpbuf, length);
+        *outbuf += length;
+        *outbytesleft -= length;
+    }
     if (res == (size_t)(-1) && errno == E2BIG)
     {
-        char tmpbuf[TEMP_BUFFER_SIZE];
-        char *tmpptr = tmpbuf;
-        size_t tmpsize = TEMP_BUFFER_SIZE;
-        res = reiconv_iconv(cd, inbuf, inbytesleft, &tmpptr, &tmpsize);
-        size_t length = tmpptr - tmpbuf;
-        if (length > *outbytesleft)
-        {
-            errno = E2BIG;
-            return (size_t)(-1);
-        }
-        if (length > 0)
-        {
-            memcpy(*outbuf, tmpbuf, length);
-            *outbuf += length;
-            *outbytesleft -= length;
-        }
-        if (res == (size_t)(-1) && errno == E2BIG)
-        {
-            res = 0; // The temporary buffer is full, go on.
-        }
+        res = 0; // The temporary buffer is full, go on.
     }
     return res;
 }
-- 
2.43.0


From 9ba7165f9958c31d16d68383315be4233e31428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:44 +0000
Subject: [PATCH 14/17] fix: C99 and JAVA decoders accepted the letters G to Z
 as hexadecimal digits

---
 lib/converters/c99.h  | 8 ++++----
 lib/converters/java.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/converters/c99.h b/lib/converters/c99.h
index 673d143..4bda537 100644
--- a/lib/converters/c99.h
+++ b/lib/converters/c99.h
@@ -61,9 +61,9 @@ static int c99_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t n
                 c = s[i];
                 if (c >= '0' && c <= '9')
                     c -= '0';
-                else if (c >= 'A' && c <= 'Z')
+                else if (c >= 'A' && c <= 'F')
                     c -= 'A' - 10;
-                else if (c >= 'a' && c <= 'z')
+                else if (c >= 'a' && c <= 'f')
                     c -= 'a' - 10;
                 else
                     goto simply_backslash;
@@ -85,9 +85,9 @@ static int c99_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t n
                 c = s[i];
                 if (c >= '0' && c <= '9')
                     c -= '0';
-                else if (c >= 'A' && c <= 'Z')
+                else if (c >= 'A' && c <= 'F')
                     c -= 'A' - 10;
-                else if (c >= 'a' && c <= 'z')
+                else if (c >= 'a' && c <= 'f')
                     c -= 'a' - 10;
                 else
                     goto simply_backslash;
diff --git a/lib/converters/java.h b/lib/converters/java.h
index b93172b..9f8d78e 100644
--- a/lib/converters/java.h
+++ b/lib/converters/java.h
@@ -57,9 +57,9 @@ static int java_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t
         c = s[i];
         if (c >= '0' && c <= '9')
             c -= '0';
-        else if (c >= 'A' && c <= 'Z')
+        else if (c >= 'A' && c <= 'F')
             c -= 'A' - 10;
-        else if (c >= 'a' && c <= 'z')
+        else if (c >= 'a' && c <= 'f')
             c -= 'a' - 10;
         else
             goto simply_backslash;
@@ -88,9 +88,9 @@ static int java_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t
         c = s[i];
         if (c >= '0' && c <= '9')
             c -= '0';
-        else if (c >= 'A' && c <= 'Z')
+        else if (c >= 'A' && c <= 'F')
             c -= 'A' - 10;
-        else if (c >= 'a' && c <= 'z')
+        else if (c >= 'a' && c <= 'f')
             c -= 'a' - 10;
         else
             goto simply_backslash;
-- 
2.43.0


From 0966bb05313422005fad56696d4f68449a79fb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:44 +0000
Subject: [PATCH 15/17] fix: UTF-7, C99 and JAVA let unpaired surrogates
 through

---
 lib/converters/c99.h  | 4 ++++
 lib/converters/java.h | 4 ++++
 lib/converters/utf7.h | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/lib/converters/c99.h b/lib/converters/c99.h
index 4bda537..d1185ae 100644
--- a/lib/converters/c99.h
+++ b/lib/converters/c99.h
@@ -115,6 +115,10 @@ static int c99_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
         *r = wc;
         return 1;
     }
+    else if (wc >= 0xd800 && wc < 0xe000)
+    {
+        return RET_ILUNI;
+    }
     else
     {
         int result;
diff --git a/lib/converters/java.h b/lib/converters/java.h
index 9f8d78e..58543f9 100644
--- a/lib/converters/java.h
+++ b/lib/converters/java.h
@@ -112,6 +112,10 @@ static int java_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
         *r = wc;
         return 1;
     }
+    else if (wc >= 0xd800 && wc < 0xe000)
+    {
+        return RET_ILUNI;
+    }
     else if (wc < 0x10000)
     {
         if (n >= 6)
diff --git a/lib/converters/utf7.h b/lib/converters/utf7.h
index 3335a58..f360e40 100644
--- a/lib/converters/utf7.h
+++ b/lib/converters/utf7.h
@@ -178,6 +178,7 @@ active:
       if (!(wc2 >= 0xdc00 && wc2 < 0xe000)) goto ilseq;
       *pwc = 0x10000 + ((wc1 - 0xd800) << 10) + (wc2 - 0xdc00);
     } else {
+      if (wc >= 0xdc00 && wc < 0xe000) goto ilseq; /* unpaired Low Surrogate */
       *pwc = wc;
     }
     conv->istate = base64state;
@@ -219,6 +220,8 @@ utf7_wctomb (conv_t conv, unsigned char *r, ucs4_t iwc, size_t n)
   state_t state = conv->ostate;
   unsigned int wc = iwc;
   int count = 0;
+  if (wc >= 0xd800 && wc < 0xe000)
+    return RET_ILUNI;
   if (state & 3)
     goto active;
 
-- 
2.43.0


From e7c209f60d83a749ea2d73d14be1b85546bdc362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:53 +0000
Subject: [PATCH 16/17] fix: looking up a name with non-ASCII bytes read
 outside the alias hash table

---
 lib/iconv.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index a0044ce..67ccf34 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -98,6 +98,15 @@ _CPPP_API int reiconv_lookup_from_name(const char *encoding)
     }
     size_t buf_len = reiconv_name_canonicalize(encoding, buf);
 
+    // The alias tables cover ASCII only.
+    for (size_t i = 0; i < buf_len; i++)
+    {
+        if ((unsigned char)buf[i] >= 0x80)
+        {
+            return -1;
+        }
+    }
+
     const struct alias *ap = aliases_lookup(buf, buf_len);
     return ap ? ap->encoding_index : -1;
 }
-- 
2.43.0


From 017f6af2873436341fb26535bfb6ae92ea95623d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:01 +0000
Subject: [PATCH 17/17] fix: bound the shift sequences taken in one decoder
 call

A gigabyte of shift sequences overflowed the decoder's byte count, which
made the conversion emit bytes for no input and stop with E2BIG.
---
 lib/loop_unicode.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/loop_unicode.h b/lib/loop_unicode.h
index 6fa411a..f217049 100644
--- a/lib/loop_unicode.h
+++ b/lib/loop_unicode.h
@@ -49,7 +49,8 @@ static size_t unicode_loop_convert(reiconv_t icd, const char **inbuf, size_t *in
         ucs4_t wc;
         int incount;
         int outcount;
-        incount = cd->ifuncs.xxx_mbtowc(cd, &wc, inptr, inleft);
+        /* The returned count must fit: a longer run of shift sequences is taken in several steps. */
+        incount = cd->ifuncs.xxx_mbtowc(cd, &wc, inptr, inleft <= RET_COUNT_MAX ? inleft : RET_COUNT_MAX);
         if (incount < 0)
         {
             if ((unsigned int)(-1 - incount) % 2 == (unsigned int)(-1 - RET_ILSEQ) % 2)
-- 
2.43.0

