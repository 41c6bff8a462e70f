From 4e0118e7a0539f60a0deb4faf62fd9a37b4e1fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:47 +0000
Subject: [PATCH 01/47] fix: __dfp_set_status: report every exception, not only
 the last one tested

---
 libbid/bid_decimal_globals.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libbid/bid_decimal_globals.c b/libbid/bid_decimal_globals.c
index 5ce0655..ebb97da 100644
--- a/libbid/bid_decimal_globals.c
+++ b/libbid/bid_decimal_globals.c
@@ -97,10 +97,10 @@ __dfp_set_status (int excepts) {
   else
     {
       int fexcepts = (excepts & INEXACT_EXCEPTION) ? FE_INEXACT : 0;
-      fexcepts = (excepts & OVERFLOW_EXCEPTION) ? FE_OVERFLOW : 0;
-      fexcepts = (excepts & UNDERFLOW_EXCEPTION) ? FE_UNDERFLOW : 0;
-      fexcepts = (excepts & ZERO_DIVIDE_EXCEPTION) ? FE_DIVBYZERO : 0;
-      fexcepts = (excepts & INVALID_EXCEPTION) ? FE_INVALID: 0;
+      fexcepts |= (excepts & OVERFLOW_EXCEPTION) ? FE_OVERFLOW : 0;
+      fexcepts |= (excepts & UNDERFLOW_EXCEPTION) ? FE_UNDERFLOW : 0;
+      fexcepts |= (excepts & ZERO_DIVIDE_EXCEPTION) ? FE_DIVBYZERO : 0;
+      fexcepts |= (excepts & INVALID_EXCEPTION) ? FE_INVALID: 0;
       fesetexcept (fexcepts);
     }
 }
-- 
2.43.0


From 2735227548cab2732020eca967cbce4d6d0b3261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:47 +0000
Subject: [PATCH 02/47] fix: fmod: propagate NaN without a domain error, raise
 the invalid exception

---
 sysdeps/bid/fmodd32.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sysdeps/bid/fmodd32.c b/sysdeps/bid/fmodd32.c
index c9f5075..535a66c 100644
--- a/sysdeps/bid/fmodd32.c
+++ b/sysdeps/bid/fmodd32.c
@@ -38,6 +38,7 @@
 #include <decNumber.h>
 #include <math.h>
 #include <errno.h>
+#include <fenv.h>
 #include <ieee754r_private.h>
 
 #define FUNCTION_NAME fmod
@@ -66,10 +67,15 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   FUNC_CONVERT_TO_DN (&y, &dn_y);
 
-  if (decNumberIsSpecial (&dn_x) || decNumberIsSpecial (&dn_y)
+  if (decNumberIsNaN (&dn_x) || decNumberIsNaN (&dn_y))
+    return x + y;
+
+  if (decNumberIsInfinite (&dn_x) || decNumberIsInfinite (&dn_y)
       || decNumberIsZero (&dn_y))
     {
       result.bits = DECNAN;
+      if (decNumberIsInfinite (&dn_x) || decNumberIsZero (&dn_y))
+	DFP_EXCEPT (FE_INVALID);
       DFP_ERRNO (EDOM);
       goto done;
     }
-- 
2.43.0


From 6f969f78883da5c2eda994dbe544b0a7d9bb8dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:47 +0000
Subject: [PATCH 03/47] fix: remainder: errno on domain errors only, zero and
 infinite operands

---
 ieee754r/remainderd32.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ieee754r/remainderd32.c b/ieee754r/remainderd32.c
index 7af09f2..27ea7bf 100644
--- a/ieee754r/remainderd32.c
+++ b/ieee754r/remainderd32.c
@@ -61,6 +61,10 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
       return (x - x) / (x - x);
     }
 
+  /* x is finite: the remainder is x itself if x is +-0 or y is +-Inf.  */
+  if (decNumberIsZero (&dn_x) || decNumberIsInfinite (&dn_y))
+    return x;
+
   decContextDefault (&context, DEFAULT_CONTEXT);
   decNumberDivide (&dn_mult, &dn_x, &dn_y, &context);
   context.round = DEC_ROUND_HALF_EVEN;
@@ -77,7 +81,8 @@ DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x, y);
-  if (!FUNC_D(__isinf) (x) || (!FUNC_D(__isnan) (x) && y == DFP_CONSTANT(0.0)))
+  if (!FUNC_D(__isnan) (x) && !FUNC_D(__isnan) (y)
+      && (FUNC_D(__isinf) (x) || y == DFP_CONSTANT(0.0)))
     DFP_ERRNO (EDOM);
   return z;
 }
-- 
2.43.0


From d8e814153be4b153bd908c99033563347ab17c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:47 +0000
Subject: [PATCH 04/47] fix: hypot: an infinite operand gives +Inf

---
 ieee754r/hypotd32.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieee754r/hypotd32.c b/ieee754r/hypotd32.c
index 3c06b93..7b95331 100644
--- a/ieee754r/hypotd32.c
+++ b/ieee754r/hypotd32.c
@@ -55,9 +55,9 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   FUNC_CONVERT_TO_DN (&y, &dn_y);
   if (decNumberIsInfinite (&dn_x))
-    return x;
+    return FUNC_D(__fabs) (x);
   if (decNumberIsInfinite (&dn_y))
-    return y;
+    return FUNC_D(__fabs) (y);
   if (decNumberIsNaN (&dn_x) || decNumberIsNaN (&dn_y))
     return x+y;
 
-- 
2.43.0


From 57c8fb4f367320afac8d30667519640f95fc84f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:47 +0000
Subject: [PATCH 05/47] fix: erfc: propagate NaN

---
 ieee754r/erfd32.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ieee754r/erfd32.c b/ieee754r/erfd32.c
index 809891a..749472b 100644
--- a/ieee754r/erfd32.c
+++ b/ieee754r/erfd32.c
@@ -820,11 +820,14 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   _Decimal128 y=0.0DL, z, p, r, ix;
   int32_t i, sign;
 
+  if (FUNC_D(__isnan) (x))	/* erfc(nan)=nan */
+    return x + x;
+
   sign = (x < 0.0DL);
   ix = FUNC_D(__fabs) (x);
 
   if (ix >= 0x7fff0000)
-    {				/* erfc(nan)=nan */
+    {
       /* erfc(+-inf)=0,2 */
       return (DEC_TYPE) ((sign << 1) + one / x);
     }
-- 
2.43.0


From fc647029ffd59897f36c30474bb826cec9f9da88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:47 +0000
Subject: [PATCH 06/47] fix: expm1: expm1(-0) is -0

---
 ieee754r/expm1d32.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ieee754r/expm1d32.c b/ieee754r/expm1d32.c
index 3ce810f..8cdf3fa 100644
--- a/ieee754r/expm1d32.c
+++ b/ieee754r/expm1d32.c
@@ -59,6 +59,9 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   if (decNumberIsInfinite (&dn_x))
     return decNumberIsNegative (&dn_x) ? DFP_CONSTANT(-1.0) : x;
 
+  if (decNumberIsZero (&dn_x))
+    return x;
+
   decContextDefault(&context, DEFAULT_CONTEXT);
   decNumberExp(&dn_exponent, &dn_x, &context);
   decNumberSubtract(&dn_result, &dn_exponent, &dn_one, &context);
-- 
2.43.0


From 2d20ff580c37cdef6a039416a2be127a2604f1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:47 +0000
Subject: [PATCH 07/47] fix: modf: store the infinite integral part, keep the
 sign of a zero fraction

---
 ieee754r/modfd32.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ieee754r/modfd32.c b/ieee754r/modfd32.c
index 79ddb5d..6bff25a 100644
--- a/ieee754r/modfd32.c
+++ b/ieee754r/modfd32.c
@@ -51,13 +51,18 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE *y)
       *y = x;
       return x+x;
     }
-   if (decNumberIsInfinite (&dn_x))
-    return DFP_CONSTANT(0.0)/x;
+  if (decNumberIsInfinite (&dn_x))
+    {
+      *y = x;
+      return DFP_CONSTANT(0.0)/x;
+    }
 
   decContextDefault (&context, DEFAULT_CONTEXT);
   context.round = DEC_ROUND_DOWN;	/* round towards zero */
   decNumberToIntegralValue (&dn_result, &dn_x, &context);
   decNumberSubtract (&dn_y, &dn_x, &dn_result, &context);
+  /* Both parts have the sign of the argument.  */
+  decNumberCopySign (&dn_y, &dn_y, &dn_x);
 
   FUNC_CONVERT_FROM_DN (&dn_result, y, &context);
   FUNC_CONVERT_FROM_DN (&dn_y, &result, &context);
-- 
2.43.0


From 5a4b08b86fc5561408cf9b20fd400cde9f4e55d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:47 +0000
Subject: [PATCH 08/47] fix: nextafter: report overflow, and no range error for
 a NaN direction

---
 ieee754r/nextafterd32.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ieee754r/nextafterd32.c b/ieee754r/nextafterd32.c
index 42762d2..41951bf 100644
--- a/ieee754r/nextafterd32.c
+++ b/ieee754r/nextafterd32.c
@@ -95,8 +95,11 @@ DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x, y);
-  if (!FUNC_D (__isfinite) (z) && FUNC_D (__isfinite) (x))
-    DFP_ERRNO (ERANGE);
+  if (FUNC_D (__isinf) (z) && FUNC_D (__isfinite) (x) && !(x == y))
+    {
+      DFP_EXCEPT (FE_OVERFLOW | FE_INEXACT);
+      DFP_ERRNO (ERANGE);
+    }
   /* TODO: Handle underflow here */
   return z;
 }
-- 
2.43.0


From 6bbfcb604fb44fe8cbd242e9d230fa06a7fa4123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:47 +0000
Subject: [PATCH 09/47] fix: scalbn, scalbln: large scale factors overflow or
 underflow instead of giving NaN or x

---
 ieee754r/scalblnd32.c | 16 +++++++++-------
 ieee754r/scalbnd32.c  |  7 +++++++
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/ieee754r/scalblnd32.c b/ieee754r/scalblnd32.c
index 3847cbf..1bc816e 100644
--- a/ieee754r/scalblnd32.c
+++ b/ieee754r/scalblnd32.c
@@ -66,13 +66,15 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, long y)
 //
 //  decFinalize(&dn_x, &context, &temp, &temp2);
 
-  if (y >= 1000000000L || y <= -2000000000L)
-    context.status |= DEC_Overflow;
-  else 
-    {
-    decNumberFromInt32(&dn_y, (int)y);
-    decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
-    }
+  /* Anything further out overflows or underflows all the same, and
+     decNumberScaleB rejects it.  */
+  if (y > 2 * (context.digits + context.emax))
+    y = 2 * (context.digits + context.emax);
+  if (y < -2 * (context.digits + context.emax))
+    y = -2 * (context.digits + context.emax);
+
+  decNumberFromInt32(&dn_y, (int)y);
+  decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
 
   FUNC_CONVERT_FROM_DN(&dn_x, &result, &context);
   if (context.status & DEC_Overflow)
diff --git a/ieee754r/scalbnd32.c b/ieee754r/scalbnd32.c
index 57a53e2..a1047e1 100644
--- a/ieee754r/scalbnd32.c
+++ b/ieee754r/scalbnd32.c
@@ -67,6 +67,13 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
 //
 //  decFinalize(&dn_x, &context, &temp, &temp2);
 
+  /* Anything further out overflows or underflows all the same, and
+     decNumberScaleB rejects it.  */
+  if (y > 2 * (context.digits + context.emax))
+    y = 2 * (context.digits + context.emax);
+  if (y < -2 * (context.digits + context.emax))
+    y = -2 * (context.digits + context.emax);
+
   decNumberFromInt32(&dn_y, y);
   decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
 
-- 
2.43.0


From c82486b0db0c599e3d0f41a74479fc0dc653f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:47 +0000
Subject: [PATCH 10/47] fix: tgamma: negative integers and -Inf are domain
 errors, tgamma(-0) is -Inf

---
 ieee754r/tgammad32.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ieee754r/tgammad32.c b/ieee754r/tgammad32.c
index b4c1cf5..262474d 100644
--- a/ieee754r/tgammad32.c
+++ b/ieee754r/tgammad32.c
@@ -54,9 +54,9 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
     {
       DFP_EXCEPT (FE_DIVBYZERO);
 //      return FUNC_D (__builtin_signbit) (x) ? -DFP_HUGE_VAL : DFP_HUGE_VAL;
-      return (x<0) ? -DFP_HUGE_VAL : DFP_HUGE_VAL;
+      return FUNC_D (__signbit) (x) ? -DFP_HUGE_VAL : DFP_HUGE_VAL;
     }
-  if (x < DFP_CONSTANT(0.0) && (!FUNC_D (__isinf) (x) && FUNC_D (__rint) (x) == x) )
+  if (x < DFP_CONSTANT(0.0) && FUNC_D (__rint) (x) == x)
     {
       DFP_EXCEPT (FE_INVALID);
       return DFP_NAN;
@@ -73,10 +73,10 @@ DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x);
-  if (!FUNC_D(__isfinite) (z) && FUNC_D(__isfinite) (x))
-    DFP_ERRNO (ERANGE);
-  if (x < DFP_CONSTANT(0.0) && (FUNC_D (__isinf) (x) && FUNC_D (__rint) (x) == x) )
+  if (x < DFP_CONSTANT(0.0) && FUNC_D (__rint) (x) == x)
     DFP_ERRNO (EDOM);
+  else if (!FUNC_D(__isfinite) (z) && FUNC_D(__isfinite) (x))
+    DFP_ERRNO (ERANGE);
   return z;
 }
 
-- 
2.43.0


From f2bfded7e040cd06fb07d905873a4606e024d4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:47 +0000
Subject: [PATCH 11/47] fix: logd128: pole and domain errors were swapped and
 raised no exception

---
 ieee754r/logd128.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ieee754r/logd128.c b/ieee754r/logd128.c
index 4deef4c..4ced717 100644
--- a/ieee754r/logd128.c
+++ b/ieee754r/logd128.c
@@ -68,12 +68,14 @@ __logd128 (_Decimal128 x)
     {
       if (x == 0.0DL)
 	{
-	  DFP_ERRNO (EDOM);
+	  DFP_EXCEPT (FE_DIVBYZERO);
+	  DFP_ERRNO (ERANGE);
 	  return -DEC_INFINITY;
 	}
       else
 	{
-	  DFP_ERRNO (ERANGE);
+	  DFP_EXCEPT (FE_INVALID);
+	  DFP_ERRNO (EDOM);
 	  return DFP_NAN;
 	}
     }
-- 
2.43.0


From bdc0a53f4b83731de2639f259df56bd6d93cbd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 12/47] fix: powd64: subnormal x, pole error sign and
 exceptions

---
 ieee754r/powd64.c | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/ieee754r/powd64.c b/ieee754r/powd64.c
index dd11f6b..5c00eeb 100644
--- a/ieee754r/powd64.c
+++ b/ieee754r/powd64.c
@@ -80,11 +80,7 @@ IEEE_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
   int y_class = __fpclassifyd64 (y);
   if (!(x_class == FP_NORMAL && y_class == FP_NORMAL))
     {
-      if (y_class == FP_SUBNORMAL && y_class == FP_SUBNORMAL)
-	{
-	  /* Handle normally */
-	}
-      else if (y_class == FP_NAN || x_class == FP_NAN)
+      if (y_class == FP_NAN || x_class == FP_NAN)
 	{
 	  return y_class == FP_ZERO ? 1.DD : x + y;
 	}
@@ -96,9 +92,12 @@ IEEE_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
 	{
 	  if (y_class == FP_INFINITE)
 	    return y < 0.DD ? DEC_INFINITY : 0.DD;
-	  if (isodd(y))
-	    return y < 0.DD ? DEC_INFINITY : __copysignd64(0.DD, x);
-	  return y < 0.DD ? DEC_INFINITY : 0.DD;
+	  if (y < 0.DD)
+	    {
+	      DFP_EXCEPT (FE_DIVBYZERO);
+	      return isodd(y) ? __copysignd64(DEC_INFINITY, x) : DEC_INFINITY;
+	    }
+	  return isodd(y) ? __copysignd64(0.DD, x) : 0.DD;
 	}
       else if (y_class == FP_INFINITE)
 	{
@@ -118,11 +117,7 @@ IEEE_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
 	    return y < 0.DD ? -0.DD : x;
 	  return y < 0.DD ? 0.DD : -x;
 	}
-      else
-	{
-	  /* This should be reachable. */
-	  return DEC_NAN;
-	}
+      /* Otherwise at least one is subnormal: handle normally.  */
     }
 
   /* x and y are non-zero, finite, and not one.
@@ -178,9 +173,16 @@ INTERNAL_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
   if (!__isfinited64 (z) && __isfinited64 (x) && __isfinited64 (y))
     {
       if (__isnand64 (z))	/*  Domain error was triggered, x < 0 and y was not an odd int */
-	DFP_ERRNO (EDOM);
-      else			/*  Overflow */
-	DFP_ERRNO (ERANGE);
+	{
+	  DFP_EXCEPT (FE_INVALID);
+	  DFP_ERRNO (EDOM);
+	}
+      else			/*  Overflow, or the pole error above */
+	{
+	  if (x != 0.DD)
+	    DFP_EXCEPT (FE_OVERFLOW);
+	  DFP_ERRNO (ERANGE);
+	}
     }
   return z;
 }
-- 
2.43.0


From 6edc41178d09838f143ca382f631c0d2b6fc0817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 13/47] fix: powd32: report overflow of the narrower type

---
 ieee754r/powd32.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/ieee754r/powd32.c b/ieee754r/powd32.c
index d335960..942b55e 100644
--- a/ieee754r/powd32.c
+++ b/ieee754r/powd32.c
@@ -24,12 +24,27 @@
    Please see libdfp/COPYING.txt for more information.  */
 
 #include <math.h>
+#include <errno.h>
+#include <fenv.h>
+#include <ieee754r_private.h>
+
+#define _DECIMAL_SIZE 32
+#include <dfpmacro.h>
 
 extern _Decimal64 __powd64(_Decimal64, _Decimal64);
 
 _Decimal32
 __powd32 (_Decimal32 x, _Decimal32 y)
 {
-  return (_Decimal32) __powd64((_Decimal64) x, (_Decimal64) y);
+  _Decimal64 z = __powd64((_Decimal64) x, (_Decimal64) y);
+  _Decimal32 r = (_Decimal32) z;
+
+  /* Overflow of the narrower type only.  */
+  if (__isinfd32 (r) && !__isinfd64 (z))
+    {
+      DFP_EXCEPT (FE_OVERFLOW);
+      DFP_ERRNO (ERANGE);
+    }
+  return r;
 }
 weak_alias(__powd32, powd32)
-- 
2.43.0


From f3a0bf85b974f1d850d936cc01ca115151dfdc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 14/47] fix: exp: report overflow, keep NaN out of the table
 lookup

---
 ieee754r/expd128.c | 12 +++++++++++-
 ieee754r/expd64.c  |  9 ++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/ieee754r/expd128.c b/ieee754r/expd128.c
index a826c9e..53403e5 100644
--- a/ieee754r/expd128.c
+++ b/ieee754r/expd128.c
@@ -32,6 +32,9 @@
 #include <ieee754r_private.h>
 #include <dfp/fenv.h>
 
+#define _DECIMAL_SIZE 128
+#include <dfpmacro.h>
+
 #include "dfp_inline.h"
 
 /* Generated lookup tables */
@@ -78,7 +81,14 @@ __expd128 (_Decimal128 val)
       if (__builtin_isnan (val))
 	return val + val;
       else if (val > max)
-	return DEC_INFINITY;
+	{
+	  if (!__isinfd128 (val))
+	    {
+	      DFP_EXCEPT (FE_OVERFLOW);
+	      DFP_ERRNO (ERANGE);
+	    }
+	  return DEC_INFINITY;
+	}
       else
 	return 0.0DL;
     }
diff --git a/ieee754r/expd64.c b/ieee754r/expd64.c
index 0dbb347..66e7ba8 100644
--- a/ieee754r/expd64.c
+++ b/ieee754r/expd64.c
@@ -59,6 +59,10 @@ IEEE_FUNCTION_NAME (DEC_TYPE val)
 
   int neg = 0;
 
+  /* A NaN must not index the table below.  */
+  if (__isnand64(val))
+    return val + val;
+
   if (__isinfd64(val))
     {
       if (val < DFP_CONSTANT(0.0))
@@ -190,7 +194,10 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x);
   if (!FUNC_D(__isfinite) (z) && FUNC_D(__isfinite) (x))
-    DFP_ERRNO (ERANGE);
+    {
+      DFP_EXCEPT (FE_OVERFLOW);
+      DFP_ERRNO (ERANGE);
+    }
   return z;
 }
 weak_alias(INTERNAL_FUNCTION_NAME, EXTERNAL_FUNCTION_NAME)
-- 
2.43.0


From d86c583bc7a8349dc431ca5a45a068f280d8b9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 15/47] fix: ldexp: NaN, infinite and zero operands, exponent
 sum overflow

---
 ieee754r/ldexpd32.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ieee754r/ldexpd32.c b/ieee754r/ldexpd32.c
index 4b06ed4..2b23e8e 100644
--- a/ieee754r/ldexpd32.c
+++ b/ieee754r/ldexpd32.c
@@ -51,7 +51,11 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
   int p = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Pmax));
 
 #if NUMDIGITS_SUPPORT==1
-  newexp = FUNC_D (getexp) (x) + y;
+  /* These have no exponent to adjust.  */
+  if (!FUNC_D(__isfinite) (x) || x == DFP_CONSTANT(0.0))
+    return x + x;
+
+  newexp = (long) FUNC_D (getexp) (x) + y;
   if (newexp > PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emax)))
     {
     result = FUNC_D(__copysign)(DFP_HUGE_VAL, x);
-- 
2.43.0


From a6c6a16b50bd0b719eead4337a42fa59e522b250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 16/47] fix: frexp: store an exponent for zero, infinite and
 NaN operands

---
 ieee754r/frexpd32.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ieee754r/frexpd32.c b/ieee754r/frexpd32.c
index ece6582..3111f3b 100644
--- a/ieee754r/frexpd32.c
+++ b/ieee754r/frexpd32.c
@@ -51,7 +51,9 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, int *y)
 #if NUMDIGITS_SUPPORT==1
   int digits, exponent;
 
-  if (FUNC_D (__isinf) (x) || FUNC_D (__isnan) (x))
+  *y = 0;
+  if (FUNC_D (__isinf) (x) || FUNC_D (__isnan) (x)
+      || x == DFP_CONSTANT(0.0))
     return x+x;
 
   // Given 3.1e0 is encoded as 31e-1 and we want .31e1
-- 
2.43.0


From 9acf5b414af6bf2343f2e8ba8fa9b61a94381594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 17/47] fix: fma: no domain error for a NaN factor

---
 ieee754r/fmad32.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieee754r/fmad32.c b/ieee754r/fmad32.c
index 268f042..c964574 100644
--- a/ieee754r/fmad32.c
+++ b/ieee754r/fmad32.c
@@ -98,7 +98,8 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
     {
       int isneg = FUNC_D(__signbit) (x) ^ FUNC_D(__signbit) (y);
       int inf = FUNC_D(__isinf) (x) | FUNC_D(__isinf) (y);
-      if ( inf && FUNC_D (__signbit) (z) != isneg)
+      if ( inf && !FUNC_D(__isnan) (x) && !FUNC_D(__isnan) (y)
+	   && FUNC_D (__signbit) (z) != isneg)
 	DFP_ERRNO (EDOM);
     }
   return r;
-- 
2.43.0


From 3988e4f52d2931d3e5ac17a133e70c62f8f14b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 18/47] fix: erfc: a large finite operand gives 0, not 1/x

---
 ieee754r/erfd32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieee754r/erfd32.c b/ieee754r/erfd32.c
index 749472b..4122cc1 100644
--- a/ieee754r/erfd32.c
+++ b/ieee754r/erfd32.c
@@ -826,7 +826,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   sign = (x < 0.0DL);
   ix = FUNC_D(__fabs) (x);
 
-  if (ix >= 0x7fff0000)
+  if (FUNC_D(__isinf) (x))
     {
       /* erfc(+-inf)=0,2 */
       return (DEC_TYPE) ((sign << 1) + one / x);
-- 
2.43.0


From 3bd9b11567189ecf68b93c004e26067a2bbe4ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 19/47] fix: tanh: large operands give +-1, not NaN

---
 decNumberMath/decNumberMath.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decNumberMath/decNumberMath.c b/decNumberMath/decNumberMath.c
index 4ff0ab8..94d1222 100644
--- a/decNumberMath/decNumberMath.c
+++ b/decNumberMath/decNumberMath.c
@@ -523,6 +523,11 @@ decNumber* decNumberTanh (decNumber *result, decNumber *x, decContext *set)
   decNumberExp (&ex, x, set);
   decNumberMinus (&mx, x, set);
   decNumberExp (&emx, &mx, set);
+  // both numerator and denominator overflow for large |x|: the limit is +-1
+  if (decNumberIsInfinite (&ex) || decNumberIsInfinite (&emx)) {
+    decNumberFromInt32 (result, decNumberIsInfinite (&ex) ? 1 : -1);
+    return result;
+  }
   decNumberSubtract (result, &ex, &emx, set);
   decNumberAdd (&denominator, &ex, &emx, set);
   decNumberDivide (result, result, &denominator, set);
-- 
2.43.0


From 99dec755db0588c50a7c3ce9330bf68ca62427f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 20/47] fix: atan: tiny and huge operands gave NaN

---
 decNumberMath/decNumberMath.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/decNumberMath/decNumberMath.c b/decNumberMath/decNumberMath.c
index 94d1222..b4767e8 100644
--- a/decNumberMath/decNumberMath.c
+++ b/decNumberMath/decNumberMath.c
@@ -734,9 +734,17 @@ decNumber* decNumberAtan (decNumber *result, decNumber *x, decContext *set)
   for (i=0; i<2; i++) {
     decNumber y;
     decNumberMultiply (&y, x, x, set);     // y = x^2
+    if (decNumberIsInfinite (&y)) {        // too large: x = +-1, the limit
+      decNumberCopySign (x, &one, x);
+      continue;
+    }
     decNumberAdd (&y, &y, &one, set);      // y = y+1
     decNumberSquareRoot (&y, &y, set);     // y = sqrt(y)
     decNumberSubtract (&y, &y, &one, set); // y = y-1
+    if (decNumberIsZero (&y)) {            // too small: x = x/2, the limit
+      decNumberDivide (x, x, &two, set);
+      continue;
+    }
     decNumberDivide (x, &y, x, set);       // x = y/x
   }
   // f(0) = x
-- 
2.43.0


From 1eabbcb58ca1da48dda32e0ac51705f5bef5af0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 21/47] fix: expm1, asinh, atanh, sinh, tanh: a tiny operand
 gave +0 for either sign

---
 ieee754r/asinhd32.c | 2 ++
 ieee754r/atanhd32.c | 2 ++
 ieee754r/expm1d32.c | 2 ++
 ieee754r/sinhd32.c  | 2 ++
 ieee754r/tanhd32.c  | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/ieee754r/asinhd32.c b/ieee754r/asinhd32.c
index c07f2d4..ff14c80 100644
--- a/ieee754r/asinhd32.c
+++ b/ieee754r/asinhd32.c
@@ -64,6 +64,8 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   decNumberAdd (&dn_result, &dn_result, &dn_x, &context);
   decNumberLn (&dn_result, &dn_result, &context);
 
+  if (decNumberIsZero (&dn_result))	/*  x is too small for anything else */
+    return x;
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
   return result;
diff --git a/ieee754r/atanhd32.c b/ieee754r/atanhd32.c
index ffc2bcc..e841af2 100644
--- a/ieee754r/atanhd32.c
+++ b/ieee754r/atanhd32.c
@@ -89,6 +89,8 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decNumberAdd (&dn_temp, &dn_one, &dn_one, &context); /* 2 */
   decNumberDivide (&dn_result, &dn_result, &dn_temp, &context);
 
+  if (decNumberIsZero (&dn_result))	/*  x is too small for anything else */
+    return x;
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
   return result;
diff --git a/ieee754r/expm1d32.c b/ieee754r/expm1d32.c
index 8cdf3fa..89cf93d 100644
--- a/ieee754r/expm1d32.c
+++ b/ieee754r/expm1d32.c
@@ -66,6 +66,8 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decNumberExp(&dn_exponent, &dn_x, &context);
   decNumberSubtract(&dn_result, &dn_exponent, &dn_one, &context);
 
+  if (decNumberIsZero (&dn_result))	/*  x is too small for anything else */
+    return x;
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
   if (context.status & DEC_Overflow)
     DFP_EXCEPT (FE_OVERFLOW);
diff --git a/ieee754r/sinhd32.c b/ieee754r/sinhd32.c
index 5e8fc05..ab5c592 100644
--- a/ieee754r/sinhd32.c
+++ b/ieee754r/sinhd32.c
@@ -56,6 +56,8 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decContextDefault (&context, DEFAULT_CONTEXT);
   decNumberSinh (&dn_result, &dn_x, &context);
 
+  if (decNumberIsZero (&dn_result))	/*  x is too small for anything else */
+    return x;
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
   if (context.status & DEC_Overflow)
     DFP_EXCEPT (FE_OVERFLOW);
diff --git a/ieee754r/tanhd32.c b/ieee754r/tanhd32.c
index e53d1b6..911eb93 100644
--- a/ieee754r/tanhd32.c
+++ b/ieee754r/tanhd32.c
@@ -56,6 +56,8 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   decContextDefault (&context, DEFAULT_CONTEXT);
   decNumberTanh (&dn_result, &dn_x, &context);
 
+  if (decNumberIsZero (&dn_result))	/*  x is too small for anything else */
+    return x;
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
   return result;
-- 
2.43.0


From 6a45feb33934fea3c92ba596c436764e1e761f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 22/47] fix: powd128: subnormal x with a negative integer
 exponent gave 1

---
 ieee754r/powd128.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ieee754r/powd128.c b/ieee754r/powd128.c
index 682ce05..991f7de 100644
--- a/ieee754r/powd128.c
+++ b/ieee754r/powd128.c
@@ -140,6 +140,9 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
       return DFP_NAN;
     }
 
+  /* 1/x must not overflow on the way when x is subnormal.  */
+  context.emax = DEC_MAX_MATH;
+  context.emin = -DEC_MAX_MATH;
   decNumberPower (&dn_result, &dn_x, &dn_y, &context);
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
-- 
2.43.0


From 2653dc6bd7f99ecd485e8c875cf4bfc3b80666c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 23/47] fix: tgamma: raise overflow for the largest operands

---
 ieee754r/tgammad32.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ieee754r/tgammad32.c b/ieee754r/tgammad32.c
index 262474d..e8e4e10 100644
--- a/ieee754r/tgammad32.c
+++ b/ieee754r/tgammad32.c
@@ -64,6 +64,8 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
 
   gamma = FUNC_D(__lgamma_r) (x,&local_signgam);
   result = local_signgam * FUNC_D(__exp) (gamma);
+  if (FUNC_D(__isinf) (result) && !FUNC_D(__isinf) (x))
+    DFP_EXCEPT (FE_OVERFLOW);
 
   return result;
 }
-- 
2.43.0


From 189b564161ce84cf37967eca209e0c921e3bdd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:12 +0000
Subject: [PATCH 24/47] fix: asinh, acosh: large operands gave an infinity

---
 ieee754r/acoshd32.c | 4 ++++
 ieee754r/asinhd32.c | 9 +++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/ieee754r/acoshd32.c b/ieee754r/acoshd32.c
index 82acb92..86b52ee 100644
--- a/ieee754r/acoshd32.c
+++ b/ieee754r/acoshd32.c
@@ -80,6 +80,10 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
 
   decContextDefault (&context, DEFAULT_CONTEXT);
 
+  /* Keep x*x in range.  */
+  context.emax = DEC_MAX_MATH;
+  context.emin = -DEC_MAX_MATH;
+
   /* using trig identity: acosh(x) = log(x+sqrt(x*x-1)) */
   decNumberMultiply (&dn_result, &dn_x, &dn_x, &context);
   decNumberSubtract (&dn_result, &dn_result, &dn_one, &context);
diff --git a/ieee754r/asinhd32.c b/ieee754r/asinhd32.c
index ff14c80..bf3e60d 100644
--- a/ieee754r/asinhd32.c
+++ b/ieee754r/asinhd32.c
@@ -44,7 +44,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   decContext context;
   decNumber dn_result;
   DEC_TYPE result, one;
-  decNumber dn_x, dn_one;
+  decNumber dn_x, dn_absx, dn_one;
 
   one = DFP_CONSTANT(1.0);
   FUNC_CONVERT_TO_DN (&one, &dn_one);
@@ -58,12 +58,17 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   decContextDefault (&context, DEFAULT_CONTEXT);
 
   /* using trig identity: acosh(x) = log(x+sqrt(x*x-1)) */
+  /* Keep x*x in range and, the function being odd, avoid cancellation for x<0.  */
+  context.emax = DEC_MAX_MATH;
+  context.emin = -DEC_MAX_MATH;
+  decNumberCopyAbs (&dn_absx, &dn_x);
   decNumberMultiply (&dn_result, &dn_x, &dn_x, &context);
   decNumberAdd (&dn_result, &dn_result, &dn_one, &context);
   decNumberSquareRoot (&dn_result, &dn_result, &context);
-  decNumberAdd (&dn_result, &dn_result, &dn_x, &context);
+  decNumberAdd (&dn_result, &dn_result, &dn_absx, &context);
   decNumberLn (&dn_result, &dn_result, &context);
 
+  decNumberCopySign (&dn_result, &dn_result, &dn_x);
   if (decNumberIsZero (&dn_result))	/*  x is too small for anything else */
     return x;
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
-- 
2.43.0


From 465decadd978ff3e478dd9a424ba584719472028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 25/47] fix: _Decimal128 add, sub, mul: raise the invalid
 exception

---
 libbid/bid128_add.c |  8 ++++----
 libbid/bid128_fma.c | 20 ++++++++++----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/libbid/bid128_add.c b/libbid/bid128_add.c
index 986ef53..c2f3855 100644
--- a/libbid/bid128_add.c
+++ b/libbid/bid128_add.c
@@ -503,7 +503,7 @@ bid128_add (UINT128 x, UINT128 y
       }
       if ((x.w[1] & MASK_SNAN) == MASK_SNAN) {	// x is SNAN
 	// set invalid flag
-	*pfpsf |= INVALID_EXCEPTION;
+	__set_status_flags (pfpsf, INVALID_EXCEPTION);
 	// return quiet (x)
 	res.w[1] = x.w[1] & 0xfc003fffffffffffull;
 	// clear out also G[6]-G[16]
@@ -516,7 +516,7 @@ bid128_add (UINT128 x, UINT128 y
 	// if y = SNaN signal invalid exception
 	if ((y.w[1] & MASK_SNAN) == MASK_SNAN) {
 	  // set invalid flag
-	  *pfpsf |= INVALID_EXCEPTION;
+	  __set_status_flags (pfpsf, INVALID_EXCEPTION);
 	}
       }
       BID_SWAP128 (res);
@@ -531,7 +531,7 @@ bid128_add (UINT128 x, UINT128 y
       }
       if ((y.w[1] & MASK_SNAN) == MASK_SNAN) {	// y is SNAN
 	// set invalid flag
-	*pfpsf |= INVALID_EXCEPTION;
+	__set_status_flags (pfpsf, INVALID_EXCEPTION);
 	// return quiet (y)
 	res.w[1] = y.w[1] & 0xfc003fffffffffffull;
 	// clear out also G[6]-G[16]
@@ -553,7 +553,7 @@ bid128_add (UINT128 x, UINT128 y
 	    res.w[0] = 0x0ull;
 	  } else {	// x and y are infinities of opposite signs
 	    // set invalid flag
-	    *pfpsf |= INVALID_EXCEPTION;
+	    __set_status_flags (pfpsf, INVALID_EXCEPTION);
 	    // return QNaN Indefinite
 	    res.w[1] = 0x7c00000000000000ull;
 	    res.w[0] = 0x0000000000000000ull;
diff --git a/libbid/bid128_fma.c b/libbid/bid128_fma.c
index 5804115..7675a3d 100644
--- a/libbid/bid128_fma.c
+++ b/libbid/bid128_fma.c
@@ -700,7 +700,7 @@ bid128_ext_fma (int *ptr_is_midpoint_lt_even,
     }
     if ((y.w[1] & MASK_SNAN) == MASK_SNAN) { // y is SNAN
       // set invalid flag
-      *pfpsf |= INVALID_EXCEPTION;
+      __set_status_flags (pfpsf, INVALID_EXCEPTION);
       // return quiet (y)
       res.w[1] = y.w[1] & 0xfc003fffffffffffull; // clear out also G[6]-G[16]
       res.w[0] = y.w[0];
@@ -712,7 +712,7 @@ bid128_ext_fma (int *ptr_is_midpoint_lt_even,
       if ((z.w[1] & MASK_SNAN) == MASK_SNAN ||
           (x.w[1] & MASK_SNAN) == MASK_SNAN) {
         // set invalid flag
-        *pfpsf |= INVALID_EXCEPTION;
+        __set_status_flags (pfpsf, INVALID_EXCEPTION);
       }
     }
     *ptr_is_midpoint_lt_even = is_midpoint_lt_even;
@@ -732,7 +732,7 @@ bid128_ext_fma (int *ptr_is_midpoint_lt_even,
     }
     if ((z.w[1] & MASK_SNAN) == MASK_SNAN) { // z is SNAN 
       // set invalid flag 
-      *pfpsf |= INVALID_EXCEPTION;
+      __set_status_flags (pfpsf, INVALID_EXCEPTION);
       // return quiet (z) 
       res.w[1] = z.w[1] & 0xfc003fffffffffffull; // clear out also G[6]-G[16]
       res.w[0] = z.w[0];
@@ -743,7 +743,7 @@ bid128_ext_fma (int *ptr_is_midpoint_lt_even,
       // if x = SNaN signal invalid exception
       if ((x.w[1] & MASK_SNAN) == MASK_SNAN) {
         // set invalid flag
-        *pfpsf |= INVALID_EXCEPTION;
+        __set_status_flags (pfpsf, INVALID_EXCEPTION);
       }
     }
     *ptr_is_midpoint_lt_even = is_midpoint_lt_even;
@@ -763,7 +763,7 @@ bid128_ext_fma (int *ptr_is_midpoint_lt_even,
     }
     if ((x.w[1] & MASK_SNAN) == MASK_SNAN) { // x is SNAN 
       // set invalid flag 
-      *pfpsf |= INVALID_EXCEPTION;
+      __set_status_flags (pfpsf, INVALID_EXCEPTION);
       // return quiet (x) 
       res.w[1] = x.w[1] & 0xfc003fffffffffffull; // clear out also G[6]-G[16]
       res.w[0] = x.w[0];
@@ -867,7 +867,7 @@ bid128_ext_fma (int *ptr_is_midpoint_lt_even,
           res.w[1] = 0x7c00000000000000ull;
           res.w[0] = 0x0000000000000000ull;
           // set invalid flag
-          *pfpsf |= INVALID_EXCEPTION;
+          __set_status_flags (pfpsf, INVALID_EXCEPTION);
         }
       } else { // z = 0 or z = f
         res.w[1] = p_sign | MASK_INF;
@@ -883,7 +883,7 @@ bid128_ext_fma (int *ptr_is_midpoint_lt_even,
           res.w[1] = 0x7c00000000000000ull;
           res.w[0] = 0x0000000000000000ull;
           // set invalid flag
-          *pfpsf |= INVALID_EXCEPTION;
+          __set_status_flags (pfpsf, INVALID_EXCEPTION);
         }
       } else { // z = 0 or z = f
         res.w[1] = p_sign | MASK_INF;
@@ -894,7 +894,7 @@ bid128_ext_fma (int *ptr_is_midpoint_lt_even,
       res.w[1] = 0x7c00000000000000ull;
       res.w[0] = 0x0000000000000000ull;
       // set invalid flag
-      *pfpsf |= INVALID_EXCEPTION;
+      __set_status_flags (pfpsf, INVALID_EXCEPTION);
     }
     *ptr_is_midpoint_lt_even = is_midpoint_lt_even;
     *ptr_is_midpoint_gt_even = is_midpoint_gt_even;
@@ -911,7 +911,7 @@ bid128_ext_fma (int *ptr_is_midpoint_lt_even,
         res.w[1] = 0x7c00000000000000ull;
         res.w[0] = 0x0000000000000000ull;
         // set invalid flag
-        *pfpsf |= INVALID_EXCEPTION;
+        __set_status_flags (pfpsf, INVALID_EXCEPTION);
       } else {
         res.w[1] = z_sign | MASK_INF;
         res.w[0] = 0x0;
@@ -922,7 +922,7 @@ bid128_ext_fma (int *ptr_is_midpoint_lt_even,
       res.w[1] = 0x7c00000000000000ull;
       res.w[0] = 0x0000000000000000ull;
       // set invalid flag
-      *pfpsf |= INVALID_EXCEPTION;
+      __set_status_flags (pfpsf, INVALID_EXCEPTION);
     } else {
       // x = f and z = 0, f, necessarily
       res.w[1] = p_sign | MASK_INF;
-- 
2.43.0


From 748888c9a9fa1adfe84cdb9ecbefa3ef069e167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:48 +0000
Subject: [PATCH 26/47] fix: isinfd32: do not raise invalid for a signaling NaN

---
 libbid/_isinfd32.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/libbid/_isinfd32.c b/libbid/_isinfd32.c
index 63e6720..29bc805 100644
--- a/libbid/_isinfd32.c
+++ b/libbid/_isinfd32.c
@@ -27,13 +27,10 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 int
 isinfd32 (_Decimal32 x) {
-  int res;
-  UINT64 x64;
   union decimal32 ux;
 
+  // test the encoding: a conversion would signal invalid for an sNaN
   ux.d = x;
-  x64 = __bid32_to_bid64 (ux.i);
-  res = __bid64_isInf (x64);
-  return (res);
+  return ((ux.i & 0x7c000000) == 0x78000000);
 }
 
-- 
2.43.0


From 1f327113040b88f5577b51b11eae6e79bd437696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:06 +0000
Subject: [PATCH 27/47] fix: conversion of 2^31 and 2^63 to an unsigned integer
 gave zero

---
 libbid/_dd_to_usi.c |  4 +++-
 libbid/_td_to_udi.c | 11 ++++++++++-
 libbid/_td_to_usi.c |  4 +++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/libbid/_dd_to_usi.c b/libbid/_dd_to_usi.c
index 626f9eb..eab9539 100644
--- a/libbid/_dd_to_usi.c
+++ b/libbid/_dd_to_usi.c
@@ -33,7 +33,9 @@ __bid_fixunsddsi (_Decimal64 x) {
   ux.d = x;
   res = __bid64_to_uint32_xint (ux.i);
 
-  if (res == 0x80000000) res = 0; // for NaNs too
+  // for NaNs too; 2^31 itself is a valid result
+  if (res == 0x80000000 && __bid64_to_int64_xint (ux.i) != 0x80000000ll)
+    res = 0;
   return (res);
 }
 
diff --git a/libbid/_td_to_udi.c b/libbid/_td_to_udi.c
index 7e7b72a..07505b2 100644
--- a/libbid/_td_to_udi.c
+++ b/libbid/_td_to_udi.c
@@ -34,7 +34,16 @@ __bid_fixunstddi (_Decimal128 x) {
 
   res = __bid128_to_uint64_xint (ux.i);
 
-  if (res == 0x8000000000000000ull) res = 0; // for NaNs too
+  if (res == 0x8000000000000000ull) {
+    // for NaNs too; 2^63 itself is a valid result
+    UINT128 lo, hi;
+    lo.w[1] = hi.w[1] = 0x3040000000000000ull;
+    lo.w[0] = 0x8000000000000000ull;
+    hi.w[0] = 0x8000000000000001ull;
+    if (!__bid128_quiet_greater_equal (ux.i, lo)
+	|| !__bid128_quiet_less (ux.i, hi))
+      res = 0;
+  }
   return (res);
 }
 
diff --git a/libbid/_td_to_usi.c b/libbid/_td_to_usi.c
index 00406be..e80885c 100644
--- a/libbid/_td_to_usi.c
+++ b/libbid/_td_to_usi.c
@@ -33,7 +33,9 @@ __bid_fixunstdsi (_Decimal128 x) {
   ux.d = x;
   res = __bid128_to_uint32_xint (ux.i);
 
-  if (res == 0x80000000) res = 0; // for NaNs too
+  // for NaNs too; 2^31 itself is a valid result
+  if (res == 0x80000000 && __bid128_to_int64_xint (ux.i) != 0x80000000ll)
+    res = 0;
   return (res);
 }
 
-- 
2.43.0


From 4c6d507bafbeec6158c0191df89625681f6af4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:20 +0000
Subject: [PATCH 28/47] fix: conversion of (-1,0) to unsigned 128-bit raised
 invalid

---
 base-math/fixsdti.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base-math/fixsdti.c b/base-math/fixsdti.c
index 1dee500..00bcc28 100644
--- a/base-math/fixsdti.c
+++ b/base-math/fixsdti.c
@@ -106,14 +106,15 @@ RET_TYPE __BACKEND_(FUNC) (DEC_TYPE a)
       return min.ti;
   }
 
-  if(a < MIN_VAL || a > MAX_VAL)
+  long e;
+  DEC_TYPE a_int = TRUNC (a);
+
+  if(a_int < MIN_VAL || a_int > MAX_VAL)
   {
     DFP_EXCEPT (FE_INVALID);
     return SIGNBIT(a) ? min.ti : max.ti;
   }
 
-  long e;
-  DEC_TYPE a_int = TRUNC (a);
   RET_TYPE mant = GETMANT (a_int, &e);
 
   if (e > 0)
-- 
2.43.0


From f16f974955adb25899cd67d86583b82376e301d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:20 +0000
Subject: [PATCH 29/47] fix: llround, llrint: a _Decimal64 just above LLONG_MAX
 was not out of range

---
 ieee754r/llroundd32.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ieee754r/llroundd32.c b/ieee754r/llroundd32.c
index f1c7ca0..2f2b7af 100644
--- a/ieee754r/llroundd32.c
+++ b/ieee754r/llroundd32.c
@@ -52,6 +52,10 @@
 # define __ROUND_MODE DEC_ROUND_HALF_UP
 #endif
 
+/* The limits need not be representable in DEC_TYPE, compare them exactly.  */
+#define OUT_OF_RANGE(x) \
+  ((_Decimal128) (x) > __MAX_VALUE || (_Decimal128) (x) < __MIN_VALUE)
+
 static __ROUND_RETURN_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x)
 {
@@ -62,7 +66,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x)
-	|| x > __MAX_VALUE || x < __MIN_VALUE)
+	|| OUT_OF_RANGE (x))
     {
       DFP_EXCEPT (FE_INVALID);
       return (__ROUND_RETURN_TYPE) x;
@@ -89,7 +93,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
   __ROUND_RETURN_TYPE z = IEEE_FUNCTION_NAME (x);
   if (FUNC_D(__isnan) (x) || FUNC_D(__isinf) (x)
-	|| x > __MAX_VALUE || x < __MIN_VALUE)
+	|| OUT_OF_RANGE (x))
     DFP_ERRNO (EDOM);
   return z;
 }
-- 
2.43.0


From 639fc7f50508542fcd7317fbce700d85823de162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:18 +0000
Subject: [PATCH 30/47] fix: conversion of INT_MIN to _Decimal64 gave a NaN

---
 libbid/bid_from_int.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libbid/bid_from_int.c b/libbid/bid_from_int.c
index cfee0ed..f463afb 100644
--- a/libbid/bid_from_int.c
+++ b/libbid/bid_from_int.c
@@ -42,8 +42,8 @@ bid64_from_int32 (int x _EXC_MASKS_PARAM _EXC_INFO_PARAM) {
   // in the lowest 32bits of the result
   if ((x & SIGNMASK32) == SIGNMASK32) {
     // negative int32
-    x = ~x + 1;	// 2's complement of x
-    res = (unsigned int) x | 0xb1c0000000000000ull;
+    res = ~((unsigned int) x) + 1;	// 2's complement of x
+    res |= 0xb1c0000000000000ull;
     // (exp << 53)) = biased exp. is 0
   } else {	// positive int32
     res = x | 0x31c0000000000000ull;	// (exp << 53)) = biased exp. is 0
-- 
2.43.0


From 81b1ca8510727720926ee8549070c7503b258e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 31/47] fix: conversion of a 64-bit integer to _Decimal32
 rounded twice

---
 libbid/_di_to_sd.c  | 6 +++---
 libbid/_udi_to_sd.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libbid/_di_to_sd.c b/libbid/_di_to_sd.c
index fd2b9fd..1ac2bbb 100644
--- a/libbid/_di_to_sd.c
+++ b/libbid/_di_to_sd.c
@@ -28,10 +28,10 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal32
 __bid_floatdisd (DItype x) {
   union decimal32 res;
-  UINT64 res64;
+  UINT128 res128;
 
-  res64 = __bid64_from_int64 (x);
-  res.i = __bid64_to_bid32 (res64);
+  res128 = __bid128_from_int64 (x);
+  res.i = __bid128_to_bid32 (res128);
   return (res.d);
 }
 hidden_def(__bid_floatdisd);
diff --git a/libbid/_udi_to_sd.c b/libbid/_udi_to_sd.c
index 62a1285..fe9e26c 100644
--- a/libbid/_udi_to_sd.c
+++ b/libbid/_udi_to_sd.c
@@ -28,10 +28,10 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal32
 __bid_floatunsdisd (UDItype x) {
   union decimal32 res;
-  UINT64 res64;
+  UINT128 res128;
 
-  res64 = __bid64_from_uint64 (x);
-  res.i = __bid64_to_bid32 (res64);
+  res128 = __bid128_from_uint64 (x);
+  res.i = __bid128_to_bid32 (res128);
   return (res.d);
 }
 hidden_def(__bid_floatunsdisd);
-- 
2.43.0


From c366ba4afc1b8c78bc7c438dd58666178481e0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 32/47] fix: thirteen wrong digits in the exp and log tables

---
 ieee754r/ddlogtbls.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/ieee754r/ddlogtbls.h b/ieee754r/ddlogtbls.h
index 98f768b..87d9300 100644
--- a/ieee754r/ddlogtbls.h
+++ b/ieee754r/ddlogtbls.h
@@ -76,13 +76,13 @@ const _Decimal128 __LN2digits [] = {
 	-0.7765287894989963678119979561003557DL, /* ln(0.46DL) */
 	-0.7550225842780327812150322395965547DL, /* ln(0.47DL) */
 	-0.7339691750802004389718091866134964DL, /* ln(0.48DL) */
-	-0.7133498878974647578252974224823690DL, /* ln(0.49DL) */
+	-0.7133498878774647578252774224823690DL, /* ln(0.49DL) */
 	-0.6931471805599453094172321214581766DL, /* ln(0.50DL) */
 	-0.6733445532637655963912030545730762DL, /* ln(0.51DL) */
 	-0.6539264674066640131480312248870567DL, /* ln(0.52DL) */
 	-0.6348782724359695338915137703396706DL, /* ln(0.53DL) */
 	-0.6161861394238169844330150771429747DL, /* ln(0.54DL) */
-	-0.5978370007556204493732799981974115DL, /* ln(0.55DL) */
+	-0.5978370007556204493732799981774115DL, /* ln(0.55DL) */
 	-0.5798184952529421346789338015510190DL, /* ln(0.56DL) */
 	-0.5621189181535412166317102405583492DL, /* ln(0.57DL) */
 	-0.5447271754416720314354787555486402DL, /* ln(0.58DL) */
@@ -179,7 +179,7 @@ const _Decimal128 __expIntXDL [] = {
 	1.0DL, /* exp(0.0DL) */
 	2.718281828459045235360287471352662DL, /* exp(1.0DL) */
 	7.389056098930650227230427460575008DL, /* exp(2.0DL) */
-	20.08553692318766974092852965458172DL, /* exp(3.0DL) */
+	20.08553692318766774092852965458172DL, /* exp(3.0DL) */
 	54.59815003314423907811026120286088DL, /* exp(4.0DL) */
 	148.4131591025766034211155800405523DL, /* exp(5.0DL) */
 	403.4287934927351226083871805433883DL, /* exp(6.0DL) */
@@ -203,7 +203,7 @@ const _Decimal128 __expIntXDL [] = {
 	26489122129.84347229413916215281188DL, /* exp(24.0DL) */
 	72004899337.38587252416135146612616DL, /* exp(25.0DL) */
 	195729609428.8387642697763978760953DL, /* exp(26.0DL) */
-	532048240601.7986166837473043411974DL, /* exp(27.0DL) */
+	532048240601.7986166837473043411774DL, /* exp(27.0DL) */
 	1446257064291.475173677047422996929DL, /* exp(28.0DL) */
 	3931334297144.042074388620580843528DL, /* exp(29.0DL) */
 	10686474581524.46214699046865074140DL, /* exp(30.0DL) */
@@ -211,7 +211,7 @@ const _Decimal128 __expIntXDL [] = {
 	78962960182680.69516097802263510822DL, /* exp(32.0DL) */
 	214643579785916.0646242977615312609DL, /* exp(33.0DL) */
 	583461742527454.8814029027346103910DL, /* exp(34.0DL) */
-	1586013452313430.728129644625974660DL, /* exp(35.0DL) */
+	1586013452313430.728129644625774660DL, /* exp(35.0DL) */
 	4311231547115195.227113422292856925DL, /* exp(36.0DL) */
 	11719142372802611.30877293979119019DL, /* exp(37.0DL) */
 	31855931757113756.22032867170129865DL, /* exp(38.0DL) */
@@ -337,7 +337,7 @@ const _Decimal128 __expIntXDL [] = {
 	4.154589706104022437390577106831935e+68DL, /* exp(158.0DL) */
 	1.129334570280556947872702202187131e+69DL, /* exp(159.0DL) */
 	3.069849640644242466736457030165496e+69DL, /* exp(160.0DL) */
-	8.344716494264974360965835809202325e+69DL, /* exp(161.0DL) */
+	8.344716494264774360965835809202325e+69DL, /* exp(161.0DL) */
 	2.268329121000240471305839031261140e+70DL, /* exp(162.0DL) */
 	6.165957830579432532004967054378165e+70DL, /* exp(163.0DL) */
 	1.676081112590882772586107349772233e+71DL, /* exp(164.0DL) */
@@ -374,7 +374,7 @@ const _Decimal128 __expIntXDL [] = {
 	4.868822826641319706709336201865967e+84DL, /* exp(195.0DL) */
 	1.323483261564570355306938300562604e+85DL, /* exp(196.0DL) */
 	3.597600500180681130758662848849109e+85DL, /* exp(197.0DL) */
-	9.779292065696317602741493974881592e+85DL, /* exp(198.0DL) */
+	9.779292065696317602741493774881592e+85DL, /* exp(198.0DL) */
 	2.658287191737601973400328347238974e+86DL, /* exp(199.0DL) */
 	7.225973768125749258177477042189306e+86DL, /* exp(200.0DL) */
 	1.964223318681795865648486413742023e+87DL, /* exp(201.0DL) */
@@ -387,7 +387,7 @@ const _Decimal128 __expIntXDL [] = {
 	2.154032421824846569020981598875600e+90DL, /* exp(208.0DL) */
 	5.855267190158109347508158747532035e+90DL, /* exp(209.0DL) */
 	1.591626640377924159157186340777442e+91DL, /* exp(210.0DL) */
-	4.326489974230630919937147247796921e+91DL, /* exp(211.0DL) */
+	4.326489774230630919937147247796921e+91DL, /* exp(211.0DL) */
 	1.176061853430500122733564724127810e+92DL, /* exp(212.0DL) */
 	3.196867565323993534884678511593018e+92DL, /* exp(213.0DL) */
 	8.689987010810321382206327468404931e+92DL, /* exp(214.0DL) */
@@ -452,7 +452,7 @@ const _Decimal128 __expIntXDL [] = {
 	3.650846383862075425813175768321853e+118DL, /* exp(273.0DL) */
 	9.924029383747695725897538647368045e+118DL, /* exp(274.0DL) */
 	2.697630873893497823276541791257137e+119DL, /* exp(275.0DL) */
-	7.332920984394789339791797649312974e+119DL, /* exp(276.0DL) */
+	7.332920984394789339791797649312774e+119DL, /* exp(276.0DL) */
 	1.993294586140636987940405781793673e+120DL, /* exp(277.0DL) */
 	5.418336452271886559100375698876231e+120DL, /* exp(278.0DL) */
 	1.472856551868792008087437247897063e+121DL, /* exp(279.0DL) */
@@ -557,7 +557,7 @@ const _Decimal128 __expIntXDL [] = {
 	1.456512309747928310205062027767040e+164DL, /* exp(378.0DL) */
 	3.959210944514705822310560742686318e+164DL, /* exp(379.0DL) */
 	1.076225116551049803541837343424381e+165DL, /* exp(380.0DL) */
-	2.925483177651936727218575960974259e+165DL, /* exp(381.0DL) */
+	2.925483177651936727218575960774259e+165DL, /* exp(381.0DL) */
 	7.952287761273884428431842997922460e+165DL, /* exp(382.0DL) */
 	2.161655931614806197980514918359209e+166DL, /* exp(383.0DL) */
 	5.875990038289236239608284190826147e+166DL, /* exp(384.0DL) */
@@ -639,7 +639,7 @@ const _Decimal128 __expIntXDL [] = {
 	5.962956971409260822395127288810348e+199DL, /* exp(460.0DL) */
 	1.620899757926497623081284104932651e+200DL, /* exp(461.0DL) */
 	4.406062357725263759379850038557442e+200DL, /* exp(462.0DL) */
-	1.197691924206200182564330974252429e+201DL, /* exp(463.0DL) */
+	1.197691924206200182564330774252429e+201DL, /* exp(463.0DL) */
 	3.255664193661862052431253530725589e+201DL, /* exp(464.0DL) */
 	8.849812817195809529800229688135934e+201DL, /* exp(465.0DL) */
 	2.405628536624731937016932793996026e+202DL, /* exp(466.0DL) */
@@ -756,7 +756,7 @@ const _Decimal128 __expIntXDL [] = {
 	3.871828017611068619756333191738026e+250DL, /* exp(577.0DL) */
 	1.052471974319077600436351056214937e+251DL, /* exp(578.0DL) */
 	2.860915442753963560149385355110176e+251DL, /* exp(579.0DL) */
-	7.776974460795963023293133416439138e+251DL, /* exp(580.0DL) */
+	7.776774460795963023293133416439138e+251DL, /* exp(580.0DL) */
 	2.113946470080605596467762082192512e+252DL, /* exp(581.0DL) */
 	5.746302275955252943010619149104434e+252DL, /* exp(582.0DL) */
 	1.562006905756201809684652029738012e+253DL, /* exp(583.0DL) */
@@ -815,7 +815,7 @@ const _Decimal128 __expIntXDL [] = {
 	1.626636414927522393392903634887462e+276DL, /* exp(636.0DL) */
 	4.421656208207251754959015960656940e+276DL, /* exp(637.0DL) */
 	1.201930772246289711810497611562084e+277DL, /* exp(638.0DL) */
-	3.267186577262836658270402974456316e+277DL, /* exp(639.0DL) */
+	3.267186577262836658270402774456316e+277DL, /* exp(639.0DL) */
 	8.881133903158873299234272672967127e+277DL, /* exp(640.0DL) */
 	2.414142490506831928910472323441926e+278DL, /* exp(641.0DL) */
 	6.562319663255584349955503981011063e+278DL, /* exp(642.0DL) */
-- 
2.43.0


From 129abd4947f3ffa4b230606323bd804974290667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 33/47] fix: nexttoward: report overflow, and no range error
 for a NaN direction

---
 ieee754r/nexttowardd32.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ieee754r/nexttowardd32.c b/ieee754r/nexttowardd32.c
index dd77abf..5e156dd 100644
--- a/ieee754r/nexttowardd32.c
+++ b/ieee754r/nexttowardd32.c
@@ -97,8 +97,11 @@ DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x, _Decimal128 y)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x, y);
-  if (!FUNC_D(__isfinite) (z) && FUNC_D(__isfinite) (x))
-    DFP_ERRNO (ERANGE);
+  if (FUNC_D (__isinf) (z) && FUNC_D (__isfinite) (x))
+    {
+      DFP_EXCEPT (FE_OVERFLOW | FE_INEXACT);
+      DFP_ERRNO (ERANGE);
+    }
   /* TODO: Handle underflow */
   return z;
 }
-- 
2.43.0


From 0fe839972174ff9500042058c17465dd3330045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 34/47] fix: isgreater, islessgreater: compare with an
 uninitialised context

---
 ieee754r/isgreaterd32.c     | 1 +
 ieee754r/islessgreaterd32.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ieee754r/isgreaterd32.c b/ieee754r/isgreaterd32.c
index fc3bd46..dd541e8 100644
--- a/ieee754r/isgreaterd32.c
+++ b/ieee754r/isgreaterd32.c
@@ -52,6 +52,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   if(decNumberIsNaN(&dn_x) || decNumberIsNaN(&dn_y))
     return 0;
 
+  decContextDefault (&context, DEFAULT_CONTEXT);
   decNumberCompare (&dn_result, &dn_x, &dn_y, &context);
   return !decNumberIsNegative (&dn_result) && !decNumberIsZero(&dn_result);
 }
diff --git a/ieee754r/islessgreaterd32.c b/ieee754r/islessgreaterd32.c
index 04dad75..2a88523 100644
--- a/ieee754r/islessgreaterd32.c
+++ b/ieee754r/islessgreaterd32.c
@@ -52,6 +52,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   if(decNumberIsNaN(&dn_x) || decNumberIsNaN(&dn_y))
     return 0;
 
+  decContextDefault (&context, DEFAULT_CONTEXT);
   decNumberCompare (&dn_result, &dn_x, &dn_y, &context);
   return (-decNumberIsNegative (&dn_result)) ||
 	 (!decNumberIsNegative (&dn_result) && !decNumberIsZero (&dn_result));
-- 
2.43.0


From 77e99f743698dd02d386b295ae43a129d35643c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 35/47] fix: remainder: wrong result for a large quotient, sign
 of a zero result

---
 ieee754r/remainderd32.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ieee754r/remainderd32.c b/ieee754r/remainderd32.c
index 27ea7bf..126b36b 100644
--- a/ieee754r/remainderd32.c
+++ b/ieee754r/remainderd32.c
@@ -46,8 +46,6 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   DEC_TYPE result;
   decNumber dn_x;
   decNumber dn_y;
-  decNumber dn_mult;
-  decNumber dn_rounded;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   FUNC_CONVERT_TO_DN (&y, &dn_y);
@@ -66,11 +64,11 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
     return x;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberDivide (&dn_mult, &dn_x, &dn_y, &context);
-  context.round = DEC_ROUND_HALF_EVEN;
-  decNumberToIntegralValue (&dn_rounded, &dn_mult, &context);
-  decNumberMultiply (&dn_mult, &dn_rounded, &dn_y, &context);
-  decNumberSubtract (&dn_result, &dn_x, &dn_mult, &context);
+  /* The remainder is exact, but the integral quotient must fit in the
+     context.  */
+  if (dn_x.exponent - dn_y.exponent + dn_x.digits > context.digits)
+    context.digits = dn_x.exponent - dn_y.exponent + dn_x.digits;
+  decNumberRemainderNear (&dn_result, &dn_x, &dn_y, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
-- 
2.43.0


From 0f2f96b99fec5d286221c121d94d22db709a1b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 36/47] fix: logb: exponent off by one next to a power of ten

---
 ieee754r/logbd32.c | 27 +--------------------------
 1 file changed, 1 insertion(+), 26 deletions(-)

diff --git a/ieee754r/logbd32.c b/ieee754r/logbd32.c
index 948e980..5020553 100644
--- a/ieee754r/logbd32.c
+++ b/ieee754r/logbd32.c
@@ -46,11 +46,6 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x;
-  decNumber dn_tmp;
-  decNumber dn_log10;
-  decNumber dn_one;
-  decNumber dn_cmp;
-  enum rounding round;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   if (decNumberIsNaN (&dn_x))
@@ -63,30 +58,10 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
       DFP_EXCEPT (FE_DIVBYZERO);
       return -DFP_HUGE_VAL;
     }
-  if (decNumberIsInfinite (&dn_x) && decNumberIsNegative (&dn_x))
-    return -x;
-
   decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberAbs (&dn_tmp, &dn_x, &context);
   /*  For DFP, we use radix 10 instead of whatever FLT_RADIX
       happens to be */
-  decNumberLog10 (&dn_log10, &dn_tmp, &context);
-
-  /* Capture the case where truncation will return the wrong result,
-     by rounding up if -1.0 < x < 1.0  */
-  round = DEC_ROUND_DOWN;
-  decNumberFromInt32 (&dn_one, 1);
-  decNumberCompare (&dn_cmp, &dn_x, &dn_one, &context);
-  if (-decNumberIsNegative(&dn_cmp))
-    {
-      decNumberFromInt32 (&dn_one, -1);
-      decNumberCompare (&dn_cmp, &dn_x, &dn_one, &context);
-      if (!decNumberIsNegative(&dn_cmp) && !decNumberIsZero(&dn_cmp))
-	round = DEC_ROUND_UP;
-    }
-  context.round = round;
-
-  decNumberToIntegralValue (&dn_result, &dn_log10, &context);
+  decNumberFromInt32 (&dn_result, dn_x.exponent + dn_x.digits - 1);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
-- 
2.43.0


From 688f76f4b2454d22231b803001b7e865713386d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 37/47] fix: ldexp: results with the largest exponents and in
 the subnormal range

---
 ieee754r/ldexpd32.c | 56 +++++++++++++++++----------------------------
 1 file changed, 21 insertions(+), 35 deletions(-)

diff --git a/ieee754r/ldexpd32.c b/ieee754r/ldexpd32.c
index 2b23e8e..bba6ded 100644
--- a/ieee754r/ldexpd32.c
+++ b/ieee754r/ldexpd32.c
@@ -32,6 +32,7 @@
 #include <decNumber.h>
 #include <math.h>
 #include <errno.h>
+#include <mapround.h>
 #include <ieee754r_private.h>
 
 #define FUNCTION_NAME ldexp
@@ -45,65 +46,50 @@
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
 {
-  DEC_TYPE result, tiny;
+  DEC_TYPE result;
   long newexp;
   int minexp = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emin));
+  int maxexp = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emax));
   int p = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Pmax));
 
+  decContext context;
+  decNumber dn_x;
+
 #if NUMDIGITS_SUPPORT==1
   /* These have no exponent to adjust.  */
   if (!FUNC_D(__isfinite) (x) || x == DFP_CONSTANT(0.0))
     return x + x;
 
+  /* Only the exponent changes as long as the format can hold it.  */
   newexp = (long) FUNC_D (getexp) (x) + y;
-  if (newexp > PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emax)))
-    {
-    result = FUNC_D(__copysign)(DFP_HUGE_VAL, x);
-    DFP_EXCEPT (FE_OVERFLOW);
-    }
-  else if (newexp < minexp)
-    {
-    /* Check if the result might be subnormal. */
-    if( newexp > (minexp - p))
-      {
-        result = FUNC_D(setexp) (x, minexp);
-        /* Use a multiply so we correctly round whatever may shifts out. */
-        tiny = FUNC_D(setexp) (1.DL, newexp - minexp);
-        return result * tiny;
-      }
-    result = DFP_CONSTANT(0.0);
-    DFP_EXCEPT (FE_UNDERFLOW);
-    return result;
-    }
-  else
-    result = FUNC_D(setexp) (x, newexp);
-
-#else
-  decContext context;
-  decNumber dn_x;
+  if (newexp >= minexp - p + 1 && newexp <= maxexp - p + 1)
+    return FUNC_D(setexp) (x, newexp);
+#endif
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (___decNumberIsNaN (&dn_x) || ___decNumberIsZero (&dn_x) ||
-	___decNumberIsInfinite (&dn_x))
+  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x) ||
+	decNumberIsInfinite (&dn_x))
     return x+x;
   if (y == 0)
     return x;
 
   /* ldexp(x,y) is just x*10**y, which is equivalent to increasing the exponent
-   * by y.  */
-  newexp = dn_x.exponent + y;
-  if(newexp > INT_MAX)
-    newexp = INT_MAX;
-  if(newexp < -INT_MAX)
-    newexp = -INT_MAX;
+   * by y.  Further out than this it overflows or underflows all the same.  */
+  newexp = (long) dn_x.exponent + y;
+  if(newexp > 2 * (maxexp + p))
+    newexp = 2 * (maxexp + p);
+  if(newexp < -2 * (maxexp + p))
+    newexp = -2 * (maxexp + p);
   dn_x.exponent = newexp;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
+  context.round = __dn_getround();
   FUNC_CONVERT_FROM_DN (&dn_x, &result, &context);
 
   if (context.status & DEC_Overflow)
     DFP_EXCEPT (FE_OVERFLOW);
-#endif
+  if (context.status & DEC_Underflow)
+    DFP_EXCEPT (FE_UNDERFLOW);
 
   return result;
 }
-- 
2.43.0


From 642c0e29110f2439a5ab76cb9d0479046ee67116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 38/47] fix: fma: round once, in the current mode, and report
 overflow

---
 ieee754r/fmad32.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ieee754r/fmad32.c b/ieee754r/fmad32.c
index c964574..bd51340 100644
--- a/ieee754r/fmad32.c
+++ b/ieee754r/fmad32.c
@@ -32,6 +32,7 @@
 #include <decNumber.h>
 #include <math.h>
 #include <errno.h>
+#include <mapround.h>
 #include <ieee754r_private.h>
 
 #include <decNumberMath.h>
@@ -48,7 +49,6 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
   DEC_TYPE result;
   decNumber dn_x;
   decNumber dn_y;
-  decNumber dn_product;
   decNumber dn_z;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
@@ -71,19 +71,24 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
     return z+z;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberMultiply (&dn_product, &dn_x, &dn_y, &context);
-
   /* Domain error if x*y = Inf and z=Inf (with opposite signs) */
-  if (decNumberIsInfinite (&dn_product) && decNumberIsInfinite (&dn_z) &&
-	(decNumberIsNegative (&dn_product) != decNumberIsNegative (&dn_z)))
+  if ((decNumberIsInfinite (&dn_x) || decNumberIsInfinite (&dn_y)) &&
+	decNumberIsInfinite (&dn_z) &&
+	(decNumberIsNegative (&dn_x) ^ decNumberIsNegative (&dn_y))
+	!= decNumberIsNegative (&dn_z))
     {
       DFP_EXCEPT (FE_INVALID);
       return DFP_NAN;
     }
-  decNumberAdd (&dn_result, &dn_product, &dn_z, &context);
+  context.round = __dn_getround();
+  /* The product is exact: only the sum is rounded.  */
+  decNumberFMA (&dn_result, &dn_x, &dn_y, &dn_z, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
+  if (context.status & DEC_Overflow)
+    DFP_EXCEPT (FE_OVERFLOW);
+
   return result;
 }
 
@@ -102,6 +107,9 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
 	   && FUNC_D (__signbit) (z) != isneg)
 	DFP_ERRNO (EDOM);
     }
+  if (FUNC_D (__isinf) (r) && FUNC_D (__isfinite) (x)
+      && FUNC_D (__isfinite) (y) && FUNC_D (__isfinite) (z))
+    DFP_ERRNO (ERANGE);
   return r;
 }
 
-- 
2.43.0


From fc7191ab076c997af0ba1686152d3fe84f025965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 39/47] fix: scalbn, scalbln: round in the current mode

---
 ieee754r/scalblnd32.c | 2 ++
 ieee754r/scalbnd32.c  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ieee754r/scalblnd32.c b/ieee754r/scalblnd32.c
index 1bc816e..8185907 100644
--- a/ieee754r/scalblnd32.c
+++ b/ieee754r/scalblnd32.c
@@ -32,6 +32,7 @@
 #include <decNumber.h>
 #include <math.h>
 #include <errno.h>
+#include <mapround.h>
 #include <ieee754r_private.h>
 
 #define FUNCTION_NAME scalbln
@@ -57,6 +58,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, long y)
     return x;
 
   decContextDefault(&context, DEFAULT_CONTEXT);
+  context.round = __dn_getround();
 //  sum = dn_x.exponent + y;
 //  if(sum >= 1000000000LL || sum <= -2000000000LL
 //    || y >= 1000000000L || y <= -2000000000L)
diff --git a/ieee754r/scalbnd32.c b/ieee754r/scalbnd32.c
index a1047e1..74b3fa1 100644
--- a/ieee754r/scalbnd32.c
+++ b/ieee754r/scalbnd32.c
@@ -32,6 +32,7 @@
 #include <decNumber.h>
 #include <math.h>
 #include <errno.h>
+#include <mapround.h>
 #include <ieee754r_private.h>
 
 #define FUNCTION_NAME scalbn
@@ -59,6 +60,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
     return x;
 
   decContextDefault(&context, DEFAULT_CONTEXT);
+  context.round = __dn_getround();
 //  sum = dn_x.exponent + y;
 //  if(sum >= 1000000000L || sum <= -2000000000LL)
 //    ; /** definite overflow */
-- 
2.43.0


From 307375d4798b3bdcfde20ab92fc7c8b435716e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 40/47] fix: cbrt: iterate until the result has the digits of
 the format

The starting approximation is off by up to 7%, and three Newton steps give
only ten correct digits: cbrtd64 was off by up to 2.7e5 units in the last
place and cbrtd128 by up to 1e22.
---
 ieee754r/cbrtd32.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ieee754r/cbrtd32.c b/ieee754r/cbrtd32.c
index bb64505..9dfb41b 100644
--- a/ieee754r/cbrtd32.c
+++ b/ieee754r/cbrtd32.c
@@ -144,10 +144,17 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   /* multiply by power of 2 */
   x = FUNC_D(__ldexp) (x, e);
 
-  /* Newton iteration */
+  /* Newton iteration: the approximation above is off by up to 7% towards
+     0.1, and each step doubles the number of correct digits.  */
   x -= (x - (z / (x * x))) * 0.3333333333333333333333333333333333333333DL;
   x -= (x - (z / (x * x))) * 0.3333333333333333333333333333333333333333DL;
   x -= (x - (z / (x * x))) * 0.3333333333333333333333333333333333333333DL;
+#if _DECIMAL_SIZE > 32
+  x -= (x - (z / (x * x))) * 0.3333333333333333333333333333333333333333DL;
+#endif
+#if _DECIMAL_SIZE > 64
+  x -= (x - (z / (x * x))) * 0.3333333333333333333333333333333333333333DL;
+#endif
 
   if (sign < 0)
     x = -x;
-- 
2.43.0


From 79d6b4af7d890b5a85b06bac3036dcf79db1233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 41/47] fix: atan: lost the digits of small operands

(sqrt(1+x^2)-1)/x cancels for small x: atand32(-0.0046) was 20% off. Use the
equal x/(1+sqrt(1+x^2)).
---
 decNumberMath/decNumberMath.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/decNumberMath/decNumberMath.c b/decNumberMath/decNumberMath.c
index b4767e8..981725e 100644
--- a/decNumberMath/decNumberMath.c
+++ b/decNumberMath/decNumberMath.c
@@ -712,9 +712,9 @@ decNumber* decNumberAtan (decNumber *result, decNumber *x, decContext *set)
   // If x is larger, the series converges too slowly,
   // so in order to get a smaller x, we apply the identity 
   //
-  //                      sqrt(1+x^2) - 1
-  // arctan(x) = 2*arctan ---------------
   //                             x
+  // arctan(x) = 2*arctan ---------------
+  //                      1 + sqrt(1+x^2)
   //
   // twice. The first application gives us a new x with x < 1.
   // The second application gives us a new x with x < 0.4142136.
@@ -740,12 +740,8 @@ decNumber* decNumberAtan (decNumber *result, decNumber *x, decContext *set)
     }
     decNumberAdd (&y, &y, &one, set);      // y = y+1
     decNumberSquareRoot (&y, &y, set);     // y = sqrt(y)
-    decNumberSubtract (&y, &y, &one, set); // y = y-1
-    if (decNumberIsZero (&y)) {            // too small: x = x/2, the limit
-      decNumberDivide (x, x, &two, set);
-      continue;
-    }
-    decNumberDivide (x, &y, x, set);       // x = y/x
+    decNumberAdd (&y, &y, &one, set);      // y = y+1
+    decNumberDivide (x, x, &y, set);       // x = x/y
   }
   // f(0) = x
   // f(i) = f(i-1) * (-x^2)
-- 
2.43.0


From df21e5cdd1ff1eac7982c4ba91f3cb3a37181cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 42/47] fix: C++ stream operators: room for every decimal
 number

A decimal64 or decimal128 in fixed notation takes up to 6181 characters,
and sprintf wrote them into 64. operator>> could fill its buffer and leave
no terminator for strtod.
---
 dfp/decimal/decimal | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/dfp/decimal/decimal b/dfp/decimal/decimal
index 852810d..daada21 100644
--- a/dfp/decimal/decimal
+++ b/dfp/decimal/decimal
@@ -115,16 +115,14 @@ public:
     {
       /* If strbuf is big enough for a _Decimal128, it is big enough for the
        * other types as well, so just use the same size for all of them.
-       *   1  (leading zero)
+       *   1  (sign)
+       * + 6145 (__DEC128_MAX_EXP__, the integer digits of %f)
        * + 1  (.)
        * + 34 (__DEC128_MANT_DIG__)
-       * + 1  (e)
-       * + 1  (+/-)
-       * + 4  (digits in __DEC128_MAX_EXP__)
-       * + 1  "\n"
-       * = 43 -> round up to a power of 2 = 64.  */
+       * + 1  "\0"
+       * and at most 1 + 4 for an exponent in the other formats.  */
 
-      char strbuf[64];
+      char strbuf[__DEC128_MAX_EXP__ + 64];
 
       ios_base::fmtflags flags = os.flags();
       unsigned int precision = os.precision();
@@ -216,7 +214,7 @@ namespace decimal
       {
 	char buf[CHAR_MAX];
 	memset(buf, '\0', CHAR_MAX);
-	is.read(buf,CHAR_MAX);
+	is.read(buf,CHAR_MAX - 1);
 	d.__setval(strtod32(buf, NULL));
 	return is;
       }
@@ -227,7 +225,7 @@ namespace decimal
       {
 	char buf[CHAR_MAX];
 	memset(buf, '\0', CHAR_MAX);
-	is.read(buf,CHAR_MAX);
+	is.read(buf,CHAR_MAX - 1);
 	d.__setval(strtod64(buf, NULL));
 	return is;
       }
@@ -238,7 +236,7 @@ namespace decimal
       {
 	char buf[CHAR_MAX];
 	memset(buf, '\0', CHAR_MAX);
-	is.read(buf,CHAR_MAX);
+	is.read(buf,CHAR_MAX - 1);
 	d.__setval(strtod128(buf, NULL));
 	return is;
       }
-- 
2.43.0


From 6e3eab6d6edcda91ae0978771d580911c6c3a42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 43/47] fix: headers: nextafter, nexttoward, nextup and
 nextdown are not const

They set errno and raise exceptions; with the attribute the compiler drops
a call made for them.
---
 dfp/bits/dfp_dmathcalls.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dfp/bits/dfp_dmathcalls.h b/dfp/bits/dfp_dmathcalls.h
index 1112876..28c5753 100644
--- a/dfp/bits/dfp_dmathcalls.h
+++ b/dfp/bits/dfp_dmathcalls.h
@@ -83,8 +83,8 @@ __DECL_D(yn, (int, __DECIMAL), __THROW)
 #ifdef __STDC_WANT_IEC_60559_DFP_EXT__
 __DECL_D(fmaxmag, (__DECIMAL, __DECIMAL), __THROW __attribute_const__)
 __DECL_D(fminmag, (__DECIMAL, __DECIMAL), __THROW __attribute_const__)
-__DECL_D(nextdown, (__DECIMAL), __THROW __attribute_const__)
-__DECL_D(nextup, (__DECIMAL), __THROW __attribute_const__)
+__DECL_D(nextdown, (__DECIMAL), __THROW)
+__DECL_D(nextup, (__DECIMAL), __THROW)
 #endif
 
 __DECL_D(ceil, (__DECIMAL), __THROW __attribute_const__)
@@ -92,8 +92,8 @@ __DECL_D(copysign, (__DECIMAL, __DECIMAL), __THROW __attribute_const__)
 __DECL_D(fabs, (__DECIMAL), __THROW __attribute_const__)
 __DECL_D(floor, (__DECIMAL), __THROW __attribute_const__)
 __DECL_D(nan, (__const char *), __THROW __attribute_const__)
-__DECL_D(nextafter, (__DECIMAL, __DECIMAL), __THROW __attribute_const__)
-__DECL_D(nexttoward, (__DECIMAL, _Decimal128), __THROW __attribute_const__)
+__DECL_D(nextafter, (__DECIMAL, __DECIMAL), __THROW)
+__DECL_D(nexttoward, (__DECIMAL, _Decimal128), __THROW)
 __DECL_D(round, (__DECIMAL), __THROW __attribute_const__)
 __DECL_D(roundeven, (__DECIMAL), __THROW __attribute_const__)
 __DECL_D(trunc, (__DECIMAL), __THROW __attribute_const__)
-- 
2.43.0


From 822eae88d2d207e0061b9f355827299ff743e650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:49 +0000
Subject: [PATCH 44/47] fix: strtod, wcstod: survive a failing newlocale

Without memory for a copy of the current locale newlocale returns a null
pointer, which nl_langinfo_l, isspace_l and freelocale dereference.
---
 stdlib/strtod32.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index 155bd68..0d8111b 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -362,6 +362,8 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
   const char *grouping;
 
   C_locale = newlocale(LC_ALL_MASK, setlocale (LC_ALL, NULL),NULL);
+  if (C_locale == NULL)		/* Out of memory: this one always exists.  */
+    C_locale = newlocale(LC_ALL_MASK, "C", NULL);
 
   if (group)
     {
@@ -978,6 +980,8 @@ FUNCTION_INTERNAL (const STRING_TYPE *nptr, STRING_TYPE **endptr, int group)
 
   curlocale = setlocale(LC_ALL,NULL);
   cur_locale_t = newlocale(LC_ALL_MASK, curlocale, NULL);
+  if (cur_locale_t == NULL)	/* Out of memory: this one always exists.  */
+    cur_locale_t = newlocale(LC_ALL_MASK, "C", NULL);
 
   ret_val = FUNCTION_L_INTERNAL (nptr,endptr,group,cur_locale_t);
   freelocale(cur_locale_t);
@@ -998,6 +1002,8 @@ FUNCTION_NAME (const STRING_TYPE *nptr, STRING_TYPE **endptr)
 
   curlocale = setlocale(LC_ALL,NULL);
   cur_locale_t = newlocale(LC_ALL_MASK, curlocale, NULL);
+  if (cur_locale_t == NULL)	/* Out of memory: this one always exists.  */
+    cur_locale_t = newlocale(LC_ALL_MASK, "C", NULL);
 
   ret_val = FUNCTION_L_INTERNAL(nptr, endptr, 0, cur_locale_t);
   freelocale(cur_locale_t);
-- 
2.43.0


From 01a480fdd6e60a507818e6a347bbe81517eb0dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:37 +0000
Subject: [PATCH 45/47] fix: ilogb, llogb, llquantexp: raise FE_INVALID on a
 domain error

---
 ieee754r/ilogbd32.c      | 4 ++++
 ieee754r/llquantexpd32.c | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/ieee754r/ilogbd32.c b/ieee754r/ilogbd32.c
index cd3087c..20ff70e 100644
--- a/ieee754r/ilogbd32.c
+++ b/ieee754r/ilogbd32.c
@@ -51,6 +51,7 @@
 #endif
 
 #include <errno.h>
+#include <fenv.h>
 #include <limits.h>
 #include <math.h>
 #include <dfpmacro.h>
@@ -67,16 +68,19 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
     {
       if (x != x)
 	{
+	  DFP_EXCEPT (FE_INVALID);
 	  DFP_ERRNO (EDOM);
 	  return _FBLOGNAN;
 	}
       else if (c == FP_ZERO)
 	{
+	  DFP_EXCEPT (FE_INVALID);
 	  DFP_ERRNO (EDOM);
 	  return _FBLOG0;
 	}
       else if (c == FP_INFINITE)
 	{
+	  DFP_EXCEPT (FE_INVALID);
 	  DFP_ERRNO (EDOM);
 	  return FUNC_D (__signbit) (x) ? _MIN_VALUE : _MAX_VALUE;
 	}
diff --git a/ieee754r/llquantexpd32.c b/ieee754r/llquantexpd32.c
index 035c2ae..059b176 100644
--- a/ieee754r/llquantexpd32.c
+++ b/ieee754r/llquantexpd32.c
@@ -27,6 +27,7 @@
 
 #include <decContext.h>
 #include <decNumber.h>
+#include <fenv.h>
 #include <math.h>
 #include <limits.h>
 
@@ -45,6 +46,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   FUNC_CONVERT_TO_DN(&x, &dn_x);
   if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x))
     {
+      DFP_EXCEPT (FE_INVALID);
       DFP_ERRNO (EDOM);
       return LLONG_MIN;
     }
-- 
2.43.0


From 93c13ff41181e99693cc55b9d9ac0bd6375ae420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:37 +0000
Subject: [PATCH 46/47] fix: quantum: a zero has a quantum as well

---
 ieee754r/quantumd128.c | 2 +-
 ieee754r/quantumd32.c  | 2 +-
 ieee754r/quantumd64.c  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ieee754r/quantumd128.c b/ieee754r/quantumd128.c
index b7c9eb9..314535b 100644
--- a/ieee754r/quantumd128.c
+++ b/ieee754r/quantumd128.c
@@ -38,7 +38,7 @@ __quantumd128 (_Decimal128 x)
   _Decimal128 result;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x))
+  if (decNumberIsNaN (&dn_x))
     return x;
   if (decNumberIsInfinite (&dn_x))
     return DEC_INFINITY;
diff --git a/ieee754r/quantumd32.c b/ieee754r/quantumd32.c
index 36e6c5f..10d6416 100644
--- a/ieee754r/quantumd32.c
+++ b/ieee754r/quantumd32.c
@@ -38,7 +38,7 @@ __quantumd32 (_Decimal32 x)
   _Decimal32 result;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x))
+  if (decNumberIsNaN (&dn_x))
     return x;
   if (decNumberIsInfinite (&dn_x))
     return DEC_INFINITY;
diff --git a/ieee754r/quantumd64.c b/ieee754r/quantumd64.c
index 42311a5..f2e1953 100644
--- a/ieee754r/quantumd64.c
+++ b/ieee754r/quantumd64.c
@@ -38,7 +38,7 @@ __quantumd64 (_Decimal64 x)
   _Decimal64 result;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x))
+  if (decNumberIsNaN (&dn_x))
     return x;
   if (decNumberIsInfinite (&dn_x))
     return DEC_INFINITY;
-- 
2.43.0


From a0e5b68721b813569470f73451c32e64d8677055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:47 +0000
Subject: [PATCH 47/47] fix: hypot: no overflow or underflow of the squares

---
 ieee754r/hypotd32.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ieee754r/hypotd32.c b/ieee754r/hypotd32.c
index 7b95331..f9813e3 100644
--- a/ieee754r/hypotd32.c
+++ b/ieee754r/hypotd32.c
@@ -62,6 +62,9 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
     return x+y;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
+  /* The squares must neither overflow nor underflow on the way.  */
+  context.emax = DEC_MAX_MATH;
+  context.emin = -DEC_MAX_MATH;
   decNumberMultiply (&dn_xx, &dn_x, &dn_x, &context);
   decNumberMultiply (&dn_yy, &dn_y, &dn_y, &context);
   decNumberAdd (&dn_sum, &dn_xx, &dn_yy, &context);
-- 
2.43.0

