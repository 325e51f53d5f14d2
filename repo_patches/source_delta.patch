From 1b79137c5081a94cb40ca0f6b15be1d58a194792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 01/17] fix: strview_is_match: an invalid view does not match
 an empty view

An invalid view only matches another invalid view, as documented.
---
 strview.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strview.c b/strview.c
index 4edea19..55ca9b9 100644
--- a/strview.c
+++ b/strview.c
@@ -65,7 +65,7 @@ void strview_swap(strview_t* a, strview_t* b)
 
 bool strview_is_match_strview(strview_t str1, strview_t str2)
 {
-	return (str1.size == str2.size) && (str1.data == str2.data || !memcmp(str1.data, str2.data, str1.size));
+	return (str1.size == str2.size) && (strview_is_valid(str1) == strview_is_valid(str2)) && (str1.data == str2.data || !memcmp(str1.data, str2.data, str1.size));
 }
 
 bool strview_is_match_cstr(strview_t str1, const char* str2)
@@ -75,7 +75,7 @@ bool strview_is_match_cstr(strview_t str1, const char* str2)
 
 bool strview_is_match_nocase_strview(strview_t str1, strview_t str2)
 {
-	return (str1.size == str2.size) && (str1.data == str2.data || !memcmp_nocase(str1.data, str2.data, str1.size));
+	return (str1.size == str2.size) && (strview_is_valid(str1) == strview_is_valid(str2)) && (str1.data == str2.data || !memcmp_nocase(str1.data, str2.data, str1.size));
 }
 
 bool strview_is_match_nocase_cstr(strview_t str1, const char* str2)
-- 
2.43.0


From d8e2b16435cfa159080235416aae222cb5a125fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 02/17] fix: strview_dequote: only remove quote characters

Any character found at both ends of the view was removed.
---
 strview.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strview.c b/strview.c
index 55ca9b9..da42894 100644
--- a/strview.c
+++ b/strview.c
@@ -513,6 +513,7 @@ strview_t strview_dequote(strview_t src)
 	if(result.size > 1)
 		quote_char = result.data[0];
 	while( 	(result.size > 1)
+	 && 	(quote_char == '\'' || quote_char == '\"')
 	 && 	(result.data[0] == quote_char)
 	 && 	(result.data[result.size-1] == quote_char) )
 		result = strview_sub(result, 1, -1);
-- 
2.43.0


From 89cd41e5e335fb4d56a0c32dd777e74175b8e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 03/17] fix: strview_split_line: leave the source unmodified
 when no line is found

The second half of a split CRLF/LFCR was removed from the source while the
EOL discriminator was left set, so the next line ending could be swallowed.
---
 strview.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/strview.c b/strview.c
index da42894..7eeaf85 100644
--- a/strview.c
+++ b/strview.c
@@ -325,9 +325,8 @@ strview_t strview_split_line(strview_t* strview_ptr, char* eol)
 				*eol = e;
 			*strview_ptr = src;
 		}
-		else	//a line ending was not found, restore the source, and return an invalid strview_t
+		else	//a line ending was not found, leave the source unmodified, and return an invalid strview_t
 		{
-			*strview_ptr = result;
 			result = STRVIEW_INVALID;
 		};
 	};
-- 
2.43.0


From 3a56eae89f9de8ea657f31e91c09f30d57a6ac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 04/17] fix: strbuf_append_vprintf: empty the buffer when
 vsnprintf fails

The -1 returned by vsnprintf() was added to the buffer size.
---
 strbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strbuf.c b/strbuf.c
index ebce1da..c16a6a0 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -211,7 +211,7 @@ strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list
 		size = buf->size;
 		append_size = vsnprintf(NULL, 0, format, va);
 
-		failed = add_will_overflow_int(size, append_size);
+		failed = append_size < 0 || add_will_overflow_int(size, append_size);
 		if(!failed)
 		{
 			size += append_size;
-- 
2.43.0


From dd452a18ac3a05b92b36807eb51814f6374ee5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 05/17] fix: strnum: do not accept bytes 0xB0 and 0xB1 as
 binary digits

---
 strnum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index 3a5fc3b..93d6bdb 100644
--- a/strnum.c
+++ b/strnum.c
@@ -887,7 +887,7 @@ static int xdigit_value(char c)
 
 static bool isbdigit(char c)
 {
-	return (c & 0x7E) == 0x30;
+	return (c & 0xFE) == 0x30;
 }
 
 static strview_t split_digits(strview_t* src)
-- 
2.43.0


From 4ed47101e9131e1d9798ba845a0d53f8723de6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 06/17] fix: strnum: consume all of "infinity"

---
 strnum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index 93d6bdb..4c3b621 100644
--- a/strnum.c
+++ b/strnum.c
@@ -514,7 +514,7 @@ static int process_float_components(float_components_t* fc)
 static float consume_float_special(float_components_t* fc)
 {
 	float value = 0.0;
-	if(strview_starts_with_nocase(fc->num, "infinty"))
+	if(strview_starts_with_nocase(fc->num, "infinity"))
 	{
 		value = INFINITY;
 		fc->num = strview_sub(fc->num, strlen("infinity"), INT_MAX);
-- 
2.43.0


From 33ab0170fb769e8b3d60fb561a95ef2431934b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 07/17] fix: strnum_consume_float: return EINVAL when src is
 NULL

As the other strnum_consume functions do.
---
 strnum.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/strnum.c b/strnum.c
index 4c3b621..e1c8f84 100644
--- a/strnum.c
+++ b/strnum.c
@@ -321,10 +321,9 @@ int strnum_consume_float(float* dst, strview_t* src, int options)
 	};
 
 	if(src)
-	{
 		fc.num = *src;
-		err = process_float_components(&fc);
-	};
+
+	err = process_float_components(&fc);
 
 	// calculate/determine output value
 	if(!err && fc.special_value)
-- 
2.43.0


From c148ef68c75fbc6b4f87bf05aab909e8364e32b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 08/17] fix: strbuf_strip: allow stripchars to be a view of the
 buffer

Stripping moved the content being viewed, so characters were missed or
wrongly removed.
---
 strbuf.c | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/strbuf.c b/strbuf.c
index c16a6a0..5b05473 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -46,7 +46,6 @@
 	static bool buf_is_dynamic(strbuf_t* buf);
 	static void empty_buf(strbuf_t* buf);
 	static bool add_will_overflow_int(int a, int b);
-	static bool view_contains_char(strview_t view, char c);
 
 #ifdef STRBUF_PROVIDE_PRNF
 	static void char_handler_for_prnf(void* dst, char c);
@@ -525,15 +524,19 @@ strview_t strbuf_strip_strview(strbuf_t** buf_ptr, strview_t stripchars)
 	strbuf_t* buf;
 	char* ptr;
 	int count;
+	bool strip[UCHAR_MAX+1] = {false};	// evaluated before stripping, as stripchars may be a view of the buffer
 
 	if(buf_ptr && *buf_ptr && strview_is_valid(stripchars))
 	{
+		for(count = 0; count < stripchars.size; count++)
+			strip[(unsigned char)stripchars.data[count]] = true;
+
 		buf = *buf_ptr;
 		count = buf->size;
 		ptr = buf->cstr;
 		while(count)
 		{
-			if(view_contains_char(stripchars, *ptr))
+			if(strip[(unsigned char)*ptr])
 			{
 				memmove(ptr, ptr+1, count);
 				buf->size--;
@@ -795,23 +798,6 @@ static bool add_will_overflow_int(int a, int b)
 	return ((a < 0) == (b < 0) && (a < 0) != (c < 0));
 }
 
-static bool view_contains_char(strview_t view, char c)
-{
-	bool retval = false;
-
-	if(strview_is_valid(view))
-	{
-		while(!retval && view.size)
-		{
-			retval |= (*view.data == c);
-			view.data++;
-			view.size--;
-		};
-	};
-
-	return retval;
-}
-
 #ifdef STRBUF_PROVIDE_PRNF
 static void char_handler_for_prnf(void* dst, char c)
 {
-- 
2.43.0


From b28a87cefa050d7e281e2818d3c44f46345cd711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 09/17] fix: strnum: scale each group of float digits to its
 final power of ten

Scaling the sum by 10^exponent as a last step gave NaN for 0e999, ERANGE or 0
for in-range values whose digits and exponent compensate each other, and the
wrong magnitude when the integral digits needed more than two groups.
---
 strnum.c | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/strnum.c b/strnum.c
index e1c8f84..405f10c 100644
--- a/strnum.c
+++ b/strnum.c
@@ -3,6 +3,7 @@
 
 	#ifndef STRNUM_NOFLOAT
 		#include <math.h>
+		#include <float.h>
 	#endif
 	#include <limits.h>
 	#include <ctype.h>
@@ -545,16 +546,40 @@ static int consume_exponent(float_components_t* fc)
 	return err;
 }
 
-#define make_float_type(typ, powfunc)											\
+// multiply by 10^power, in steps which do not overflow or underflow before the result does
+#define scale_float_type(typ, powfunc, max_step)								\
+	int step;																	\
+	while(power && value && value != (typ)INFINITY)								\
+	{																			\
+		step = power > max_step ? max_step : power < -max_step ? -max_step : (int)power;	\
+		value *= powfunc(10, step);												\
+		power -= step;															\
+	};																			\
+	return value;
+
+static float scale_float(float value, long long power)
+{
+	scale_float_type(float, powf, FLT_MAX_10_EXP)
+}
+
+static double scale_double(double value, long long power)
+{
+	scale_float_type(double, pow, DBL_MAX_10_EXP)
+}
+
+static long double scale_ldouble(long double value, long long power)
+{
+	scale_float_type(long double, powl, LDBL_MAX_10_EXP)
+}
+
+#define make_float_type(typ, scale)												\
 	typ result = 0.0;															\
-	typ fractional_part;														\
 	unsigned long long ull;														\
 	int fractional_power = 0;													\
 	while(integral_digits.size)													\
 	{																			\
 		consume_decimal_digits(&ull, &integral_digits);							\
-		result += (typ)ull;														\
-		result *= powfunc(10, integral_digits.size);							\
+		result += scale((typ)ull, (long long)integral_digits.size + exp_value);	\
 	};																			\
 	fractional_digits = strview_trim_end(fractional_digits, "0");				\
 	while(fractional_digits.size)												\
@@ -562,26 +587,23 @@ static int consume_exponent(float_components_t* fc)
 		fractional_power -= fractional_digits.size;								\
 		consume_decimal_digits(&ull, &fractional_digits);						\
 		fractional_power += fractional_digits.size;								\
-		fractional_part = (typ)ull;												\
-		fractional_part *= powfunc(10, fractional_power);						\
-		result += fractional_part;												\
+		result += scale((typ)ull, (long long)fractional_power + exp_value);		\
 	};																			\
-	result *= powfunc(10, exp_value);											\
 	return result;
 
 static float make_float(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(float, powf)
+	make_float_type(float, scale_float)
 }
 
 static double make_double(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(double, pow)
+	make_float_type(double, scale_double)
 }
 
 static long double make_ldouble(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(long double, powl)
+	make_float_type(long double, scale_ldouble)
 }
 
 #endif
-- 
2.43.0


From 7001a3f933b780de3f1656f76d05eacc370d6584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 10/17] fix: strbuf_encrypt/strbuf_decrypt: return a view of
 the buffer as documented

---
 accessories/strbuf_crypt/strbuf_crypt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 1886074..495fa25 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -70,11 +70,13 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 			buf->size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
 			buf->cstr[buf->size] = 0;
+			retval = strbuf_view(&buf);
 		}
 		else if(buf->capacity >= cypher_size(buf->size))
 		{
 			buf->size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
 			buf->cstr[buf->size] = 0;
+			retval = strbuf_view(&buf);
 		};
 		*buf_ptr = buf;	
 	};
-- 
2.43.0


From 043bacdd62b8ec9d57a6122f16bb9b36a84ed4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 11/17] fix: strbuf_decrypt: do not require spare capacity in a
 fixed buffer

A fixed buffer which exactly fits the encrypted content could not be decrypted.
---
 accessories/strbuf_crypt/strbuf_crypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 495fa25..410531b 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -72,7 +72,7 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 			buf->cstr[buf->size] = 0;
 			retval = strbuf_view(&buf);
 		}
-		else if(buf->capacity >= cypher_size(buf->size))
+		else if(fptr == dec256cbc || buf->capacity >= cypher_size(buf->size))
 		{
 			buf->size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
 			buf->cstr[buf->size] = 0;
-- 
2.43.0


From 18bf754eacaf39c34e8245a063e1a6705642befa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 12/17] fix: strbuf_decrypt: empty the buffer if the size or
 padding is invalid

The padding byte was trusted, giving the buffer a negative size, and an empty
buffer caused a read before the buffer contents.
---
 accessories/strbuf_crypt/strbuf_crypt.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 410531b..1c32123 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -115,11 +115,11 @@ static int enc256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], a
 
 // decrypt buf, using 256bit key and 128bit init vector.
 // len must be a multiple of 16
-// returns the size of the decoded output in bytes
+// returns the size of the decoded output in bytes, or 0 if the input or its padding is invalid
 static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], aes256_ctx_t* ctx)
 {
 	int block_count = len/AES_BLOCK_SIZE;
-	int out_len;
+	int out_len = 0;
 	int pad_len;
 	uint8_t buf1[AES_BLOCK_SIZE];
 	uint8_t buf2[AES_BLOCK_SIZE];
@@ -137,8 +137,12 @@ static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], a
 		swap(this_xor, next_xor);
 	};
 
-	pad_len = buf[-1];
-	out_len = len - pad_len;
+	if(len && len % AES_BLOCK_SIZE == 0)
+	{
+		pad_len = buf[-1];
+		if(1 <= pad_len && pad_len <= AES_BLOCK_SIZE)
+			out_len = len - pad_len;
+	};
 
 	return out_len;
 }
-- 
2.43.0


From 03e5949790999d662f4481b8f38dff67e5852ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 13/17] fix: strnum_value: remove the trailing comma which
 prevents use with STRNUM_NOFLOAT

---
 strnum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.h b/strnum.h
index 6c12da4..b92a97b 100644
--- a/strnum.h
+++ b/strnum.h
@@ -115,7 +115,7 @@
 		short*:					strnum_consume_short,\
 		int*:					strnum_consume_int,\
 		long*:					strnum_consume_long,\
-		long long*:				strnum_consume_llong,\
+		long long*:				strnum_consume_llong\
 		)(dst, src, opt)
 	#endif
 
-- 
2.43.0


From 635baf7d14fdaa3d8cf559d97e25957be1aa9281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 14/17] fix: STRBUF_PACK_LE/BE: do not shadow a variable of the
 caller named tmp

---
 accessories/strbuf_pack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/accessories/strbuf_pack.h b/accessories/strbuf_pack.h
index 8e9f16b..7819cb2 100644
--- a/accessories/strbuf_pack.h
+++ b/accessories/strbuf_pack.h
@@ -16,10 +16,10 @@
 //********************************************************************************************************
 
 //	Pack integer types little endian into buffer
-	#define STRBUF_PACK_LE(dst, src) do {typeof(src) tmp = xendian_pack_LE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&tmp, .size=sizeof(tmp)});}while(0)
+	#define STRBUF_PACK_LE(dst, src) do {typeof(src) _pack_tmp = xendian_pack_LE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&_pack_tmp, .size=sizeof(_pack_tmp)});}while(0)
 
 //	Pack integer types big endian into buffer
-	#define STRBUF_PACK_BE(dst, src) do {typeof(src) tmp = xendian_pack_BE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&tmp, .size=sizeof(tmp)});}while(0)
+	#define STRBUF_PACK_BE(dst, src) do {typeof(src) _pack_tmp = xendian_pack_BE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&_pack_tmp, .size=sizeof(_pack_tmp)});}while(0)
 
 //********************************************************************************************************
 // Public prototypes
-- 
2.43.0


From 88e2bd946d03096f3ade4a64f65640947c8a7c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 15/17] fix: strbuf_append_vprintf: int overflow of the space
 available in a buffer of capacity INT_MAX

---
 strbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strbuf.c b/strbuf.c
index 5b05473..1c34728 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -221,7 +221,7 @@ strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list
 		};
 
 		if(!failed)
-			buf->size += vsnprintf(&buf->cstr[buf->size], buf->capacity - buf->size + 1, format, vb);
+			buf->size += vsnprintf(&buf->cstr[buf->size], (size_t)(buf->capacity - buf->size) + 1, format, vb);
 		else
 			empty_buf(buf);
 
-- 
2.43.0


From c66094e528097314b65607b207e5f9639611d3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:45 +0000
Subject: [PATCH 16/17] fix: strview_unpack.h: include limits.h for the INT_MAX
 used by the macros

---
 accessories/strview_unpack.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/accessories/strview_unpack.h b/accessories/strview_unpack.h
index 51f2b13..01fb99d 100644
--- a/accessories/strview_unpack.h
+++ b/accessories/strview_unpack.h
@@ -8,6 +8,7 @@
 #ifndef _STRVIEW_UNPACK_H_
 	#define _STRVIEW_UNPACK_H_
 
+	#include <limits.h>
 	#include "string.h"
 	#include "strview.h"
 	#include "xendian.h"
-- 
2.43.0


From 516637f053896fc9612259379a7476d86d9d11a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:35 +0000
Subject: [PATCH 17/17] fix: strbuf_encrypt: int overflow of the encrypted size
 of content near INT_MAX

---
 accessories/strbuf_crypt/strbuf_crypt.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 1c32123..adfb6e7 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -5,6 +5,7 @@
 	https://en.wikipedia.org/wiki/Block_cipher_mode_of_operation#Cipher_block_chaining_(CBC)
 */
 	#include <stdint.h>
+	#include <limits.h>
 
 	#include "strbuf.h"
 	#include "strview.h"
@@ -60,12 +61,14 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 	aes256_ctx_t* ctx_ptr;
 	strbuf_t* buf;
 
-	if(buf_ptr && *buf_ptr)
+	//	the encrypted size must not exceed INT_MAX
+	if(buf_ptr && *buf_ptr && !(fptr == enc256cbc && (*buf_ptr)->size > INT_MAX - AES_BLOCK_SIZE))
 	{
 		buf = *buf_ptr;
 		if(buf->allocator.allocator)
 		{
-			strbuf_grow(&buf, cypher_size(buf->size));
+			if(fptr == enc256cbc)
+				strbuf_grow(&buf, cypher_size(buf->size));
 			ctx_ptr = buf->allocator.allocator(&buf->allocator, NULL, sizeof(*ctx_ptr));
 			buf->size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
-- 
2.43.0

