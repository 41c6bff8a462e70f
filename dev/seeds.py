"""Planted bugs (see mkseed.py)."""
SEEDS = []


def S(id, property, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))


S("s01-atan2-negzero", "S01",
  [("ieee754r/atan2d32.c", "  if (decNumberIsNegative (&dn_y))\n    return -result;", "  if (decNumberIsNegative (&dn_y) && !decNumberIsZero (&dn_y))\n    return -result;")],
  "y is a negative zero and x is zero or of either sign", "atan2(-0, x) loses the sign of the zero: +0 or +pi instead of -0 or -pi",
  """
  volatile _Decimal64 z = -0.0DD, m = -3.0DD, p = 3.0DD;
  _Decimal64 r = atan2d64 (z, m);
  CHECK (r < -3.0DD);
  CHECK (__signbitd64 (atan2d64 (z, p)));
""", pre="int __signbitd64 (_Decimal64);\n")

S("s01-cbrt-negzero", "S01",
  [("ieee754r/cbrtd32.c", "  if (x == DFP_CONSTANT(0.0)) /*  cbrt(0) = 0 */\n    return (x);", "  if (x == DFP_CONSTANT(0.0)) /*  cbrt(0) = 0 */\n    return (FUNC_D(__fabs) (x));")],
  "a negative zero operand", "cbrt(-0) returns +0",
  """
  volatile _Decimal128 z = -0.0DL;
  CHECK (__signbitd128 (cbrtd128 (z)));
""", pre="int __signbitd128 (_Decimal128);\n")

S("s02-fma-product-sign", "S02",
  [("ieee754r/fmad32.c", "      int isneg = FUNC_D(__signbit) (x) ^ FUNC_D(__signbit) (y);", "      int isneg = FUNC_D(__signbit) (x) | FUNC_D(__signbit) (y);")],
  "fma with an infinite product of two negative factors and an infinite addend", "fma(-Inf,-1,-Inf) no longer sets EDOM, fma(-Inf,-1,+Inf) sets it spuriously",
  """
  volatile _Decimal64 i = -__builtin_infd64 (), m = -2.0DD, p = __builtin_infd64 ();
  errno = 0; fmad64 (i, m, p); CHECK (errno == 0);
  errno = 0; fmad64 (i, m, i); CHECK (errno == EDOM);
""")

S("s03-acosh-noflag", "S03",
  [("ieee754r/acoshd32.c", "    DFP_EXCEPT (FE_INVALID);\n    return DFP_NAN;\n  } else if (x==one) {", "    if (!decNumberIsNegative (&dn_x))\n      DFP_EXCEPT (FE_INVALID);\n    return DFP_NAN;\n  } else if (x==one) {")],
  "a negative operand (not merely one below 1)", "acosh(x<0) returns NaN and EDOM but raises no invalid exception",
  """
  volatile _Decimal64 x = -2.0DD;
  feclearexcept (FE_ALL_EXCEPT);
  acoshd64 (x);
  CHECK (fetestexcept (FE_INVALID));
  feclearexcept (FE_ALL_EXCEPT);
  acoshd64 (-__builtin_infd64 ());
  CHECK (fetestexcept (FE_INVALID));
""")


S("s04-add-inf-nan", "S04",
  [("libbid/bid64_add.c", "      if (((y & NAN_MASK64) == INFINITY_MASK64)) {", "      if (((y & INFINITY_MASK64) == INFINITY_MASK64)) {")],
  "an infinite first operand and a NaN of the opposite sign bit class as the second", "Inf + NaN can become an infinity when the NaN's sign bit equals the infinity's",
  """
  volatile _Decimal64 i = __builtin_infd64 (), n = __builtin_nand64 ("");
  volatile _Decimal64 r = i + n;
  CHECK (r != r);
""")

S("s04-div-zero-sign", "S04",
  [("libbid/bid64_div.c", "    BID_RETURN ((sign_x ^ sign_y) | INFINITY_MASK64);", "    BID_RETURN ((sign_x | sign_y) | INFINITY_MASK64);", "bid64_div (")],
  "a negative operand over a negative zero", "-1 / -0 returns -Inf",
  """
  volatile _Decimal64 a = -1.0DD, z = -0.0DD;
  volatile _Decimal64 r = a / z;
  CHECK (r > 0);
""")

S("s05-less-15", "S05",
  [("libbid/bid64_compare.c", "  if (exp_x - exp_y > 15) {", "  if (exp_x - exp_y > 14) {", "bid64_quiet_less (")],
  "exponents 15 apart, with the coefficient at the larger exponent the smaller one and the values close", "1E15 < 1000000000000001 is false when 1E15 is stored as 1 with exponent 15",
  """
  volatile _Decimal64 a = 1.E15DD, b = 1000000000000001.DD;
  CHECK (a < b);
""")

S("s05-eq-33", "S05",
  [("libbid/bid128_compare.c", "if (exp_y - exp_x > 33) {", "if (exp_y - exp_x >= 33) {", "bid128_quiet_equal")],
  "equal values stored with exponents exactly 33 apart", "1E33 stored as (1, 33) is no longer equal to 10^33 stored with exponent 0",
  """
  volatile _Decimal128 a = 1.E33DL, b = 1000000000000000000000000000000000.DL;
  volatile int eq = 0;
  if (a == b) eq = 1;
  CHECK (eq);
  CHECK (__bid_eqtd2 (a, b) == 0);
""", pre="int __bid_eqtd2 (_Decimal128, _Decimal128);\n")

S("s06-subnormal-cohort", "S06",
  [("ieee754r/fpclassifyd128.c", "  if (decNumberIsSubnormal (&dn_x, &context))", "  if (dn_x.exponent < context.emin)")],
  "a normal _Decimal128 with a large negative exponent and many digits", "1.234E-6143 is classified as subnormal",
  """
  volatile _Decimal128 a = 1.234E-6143DL;
  CHECK (__fpclassifyd128 (a) == 4);
""", pre="int __fpclassifyd128 (_Decimal128);\n")

S("s07-int32-limit", "S07",
  [("libbid/bid64_to_int32.c", "	tmp64 = 0x500000000ull * ten2k64[q - 11];", "	tmp64 = 0x4fffffff6ull * ten2k64[q - 11];", "bid64_to_int32_xint (")],
  "a value with more than 11 digits whose integer part is exactly INT_MAX", "(int) 2147483647.25DD is out of range",
  """
  volatile _Decimal64 a = 2147483647.25DD;
  volatile int r = (int) a;
  CHECK (r == INT_MAX);
  a = 2147483647.2DD;
  r = (int) a;
  CHECK (r == INT_MAX);
""")

S("s07-ext-zero-exp", "S07",
  [("libbid/bid64_to_bid128.c", "      exponent_x = DECIMAL_MAX_EXPON_64;\n", "      exponent_x = DECIMAL_MAX_EXPON_64 + 1;\n")],
  "narrowing a zero with an exponent past the range of _Decimal64", "the conversion yields a non-zero encoding",
  """
  volatile _Decimal128 a = 0.E2000DL;
  volatile _Decimal64 r = a;
  CHECK (r == 0);
  CHECK (__isfinited64 (r));
""", pre="int __isfinited64 (_Decimal64);\n")

S("s08-rint-neg", "S08",
  [("ieee754r/nearbyintd32.c", "  if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x) ||\n", "  if (context.round != DEC_ROUND_HALF_EVEN || decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x) ||\n"),
   ("ieee754r/nearbyintd32.c", "  decContextDefault (&context,DEFAULT_CONTEXT);\n", "  decContextDefault (&context,DEFAULT_CONTEXT);\n  context.round = __dn_getround();\n"),
   ("ieee754r/nearbyintd32.c", "  context.round = __dn_getround();\n  decNumberToIntegralValue", "  decNumberToIntegralValue")],
  "a rounding mode other than the default", "nearbyint returns non-integers in directed modes",
  """
  fe_dec_setround (FE_DEC_UPWARD);
  volatile _Decimal64 a = 2.5DD;
  CHECK (nearbyintd64 (a) == 3.0DD);
  fe_dec_setround (FE_DEC_TONEAREST);
""")

S("s08-lrint-inexact", "S08",
  [("ieee754r/lrintd32.c", "      if (x != result)						\\", "      if (x < result || x > result + DFP_CONSTANT(0.25))		\\")],
  "an operand that lrint decreases by at most a quarter", "lrint(2.25) raises no inexact",
  """
  volatile _Decimal64 a = 2.25DD;
  feclearexcept (FE_ALL_EXCEPT);
  CHECK (lrintd64 (a) == 2);
  CHECK (fetestexcept (FE_INEXACT));
""")

S("s08-ceil-mode", "S08",
  [("ieee754r/ceild32.c", "  context.round = DEC_ROUND_CEILING;", "  context.round = DEC_ROUND_CEILING;\n  if (dn_x.exponent < -30 && !decNumberIsNegative (&dn_x))\n    context.round = DEC_ROUND_HALF_UP;")],
  "a tiny positive operand", "ceil(1E-60) is 0",
  """
  volatile _Decimal64 a = 1E-60DD;
  CHECK (ceild64 (a) == 1);
""")

S("s09-lgamma-digit", "S09",
  [("ieee754r/lgammad32.c", "  3.108725655667825188135393076860104546416E10DL,", "  3.108725655667825118135393076860104546416E10DL,")],
  "lgamma of a 128-bit operand between 7.5 and 8.5", "lgammad128 is wrong from about the 18th digit on in that interval",
  """
  volatile _Decimal128 x = 8.3DL;
  _Decimal128 r = lgammad128 (x) - 9.135766871176594477851174557182568DL;
  CHECK (r < 1e-30DL && r > -1e-30DL);
""")

S("s09-log-digit", "S09",
  [("ieee754r/t_logd128.h", "{0.634DL, -0.08970632454491112843698007329630475DL}", "{0.634DL, -0.08970632454491112834698007329630475DL}")],
  "log of a 128-bit operand whose reduced argument is near 0.634", "logd128 is wrong from the 19th digit on there",
  """
  static const char *const s[] = { "0.634", "0.6344" };
  static const _Decimal128 e[] = { -0.4557063245449111284369800732963047DL, -0.455075608661498823015392909371994DL };
  for (int i = 0; i < 2; i++)
    {
      _Decimal128 r = logd128 (strtod128 (s[i], NULL)) - e[i];
      CHECK (r < 1e-30DL && r > -1e-30DL);
    }
""")

S("s09-recip-word", "S09",
  [("libbid/bid_decimal_data.c", "{{0xbfbde3da69454e76ULL, 0x002bfaffc2f2c92aULL}", "{{0xbfbde3da69454e76ULL, 0x002bfaffc2f2c91aULL}")],
  "a rounding that drops exactly 11 digits (a 64-bit product of 27 digits)", "the reciprocal of 10^11 is a little too small, so the product is a few units too low",
  """
  volatile _Decimal64 a = strtod64 ("12345670000000", NULL), b = strtod64 ("9876543200000", NULL);
  _Decimal64 p = a * b;
  CHECK (p == strtod64 ("121932543087944e12", NULL));
  CHECK ((_Decimal128) p == (_Decimal128) a * (_Decimal128) b);
""")

S("s10-nextafter-leak", "S10",
  [("ieee754r/nextafterd32.c", "  epsilon += x;\n  __fe_dec_setround (orm);\n", "  epsilon += x;\n  if (!FUNC_D(__isfinite) (epsilon))\n    return epsilon;\n  __fe_dec_setround (orm);\n")],
  "nextafter of the largest finite value outwards", "the rounding mode stays at upward or downward afterwards",
  """
  volatile _Decimal64 m = 9.999999999999999E384DD, i = __builtin_infd64 ();
  volatile _Decimal64 r;
  fe_dec_setround (FE_DEC_TONEAREST);
  r = nextafterd64 (m, i);
  CHECK (fe_dec_getround () == FE_DEC_TONEAREST);
  r = nextafterd64 (-m, -i);
  CHECK (fe_dec_getround () == FE_DEC_TONEAREST);
""")

S("s10-setround-limit", "S10",
  [("sysdeps/soft-dfp/bid/fe_decround.c", "  if (rnd < 0 || rnd >= NUM_RND)\n    return 1;", "  if (rnd < 0 || rnd > NUM_RND)\n    return 1;")],
  "fe_dec_setround with the first value past the last direction", "the request is accepted and the mode becomes whatever follows the table",
  """
  for (int m = 0; m < 5; m++)
    {
      fe_dec_setround (m);
      CHECK (fe_dec_setround (5) != 0);
      CHECK (fe_dec_getround () == m);
    }
""")

S("s10-restore-equal", "S10",
  [("sysdeps/generic/dfp_inline.h", "  if (state->changed)\n", "  if (state->changed && state->old_mode != FE_DEC_TOWARDZERO)\n")],
  "exp of a 128-bit operand while the mode is toward zero", "the mode is left at nearest after exp and everything that calls it",
  """
  volatile _Decimal128 x = 1.5DL, r;
  for (int m = 0; m < 5; m++)
    {
      fe_dec_setround (m);
      r = expd128 (x);
      CHECK (fe_dec_getround () == m);
    }
""")

THREADS = r"""
#include <pthread.h>
static volatile int fail;
"""
S("s11-fmod-static", "S11",
  [("sysdeps/bid/fmodd32.c", "  } r, yabs, xabs, cmp, yabs_scaled;", "  } r, yabs, cmp, yabs_scaled;\n  static struct\n  {\n    decNumber d;\n    decNumberUnit extra;\n  } xabs;")],
  "two threads in fmod at the same time", "the work area holding |x| is shared, so one thread computes the other's remainder",
  """
  pthread_t t[4];
  for (long i = 0; i < 4; i++)
    pthread_create (&t[i], NULL, work, (void *) i);
  for (int i = 0; i < 4; i++)
    pthread_join (t[i], NULL);
  CHECK (!fail);
""", pre=THREADS + r"""
static void *work (void *a)
{
  volatile _Decimal64 x = 1000003.0DD + (int) (long) a, y = 1000.0DD;
  for (int i = 0; i < 300000; i++)
    if (fmodd64 (x, y) != 3.0DD + (int) (long) a)
      fail = 1;
  return a;
}
""")

S("s12-exp-index", "S12",
  [("ieee754r/expd64.c", "  if (val >= 886.49526080270759DD)\n", "  if (exp >= 900)\n")],
  "an operand between 887 and 900", "the power table is read past its last entry",
  """
  for (int i = 887; i < 900; i++)
    {
      volatile _Decimal64 x = i;
      CHECK (expd64 (x) > 9.E384DD);
    }
""")

S("s13-modf-floor", "S13",
  [("ieee754r/modfd32.c", "DEC_ROUND_DOWN;	/* round towards zero */", "DEC_ROUND_FLOOR;	/* round towards zero */")],
  "a negative operand with a fraction", "the integral part is rounded away from zero and the fraction is the complement",
  """
  _Decimal64 i, f;
  f = modfd64 (-3.25DD, &i);
  CHECK (f == -0.25DD && i == -3.0DD);
""")

S("s14-exp-terms", "S14",
  [("ieee754r/expd64.c", "      if ( t8 > 1.0E-16DD)\n", "      if ( t8 > 1.0E-11DD)\n")],
  "an operand whose fraction lies between 0.04 and 0.16", "the exponential series stops early: exp is off by thousands of units in the last place",
  """
  volatile _Decimal64 x = 0.125DD;
  _Decimal64 r = expd64 (x);
  CHECK (r > 1.133148453066820DD && r < 1.133148453066832DD);
""")

S("s14-lgamma-tail", "S14",
  [("ieee754r/lgammad32.c", "  if (x <= 1.0e18DL)\n", "  if (x <= 1.0e9DL)\n")],
  "a 34-digit operand between 1e9 and 1e15", "lgamma leaves out the asymptotic correction: half of the digits of the result are wrong",
  """
  volatile _Decimal128 x = 2000000000.0DL;
  _Decimal128 r = lgammad128 (x);
  /* 40832826025.22344495565147160... */
  CHECK (r > 40832826025.22344495565147DL && r < 40832826025.22344495565148DL);
""")

S("s14-erfc-neg", "S14",
  [("ieee754r/erfd32.c", "      if (x > 9.0DF && sign)\n", "      if (x > 6.0DF && sign)\n")],
  "a 34-digit operand between -9 and -6", "erfc returns 2 where a third of the digits are still to be computed",
  """
  volatile _Decimal128 x = -6.5DL;
  CHECK (2.0DL - erfcd128 (x) > 3.0E-20DL);
""")

S("s14-pow-log", "S14",
  [("ieee754r/powd64.c", "_Decimal128 log_x = __logd128 (x);", "_Decimal128 log_x = __logd64 (x);")],
  "a base of large magnitude and an exponent with a fraction", "pow loses the guard digits of the logarithm: the result is off by many units in the last place",
  """
  volatile _Decimal64 x = 7.654321E300DD, y = 0.4375DD, q;
  _Decimal64 bad = 0.0DD;
  for (int i = 0; i < 40; i++, x *= 0.91DD)
    {
      q = powd64 (x, y);
      _Decimal128 t = powd128 (x, y), d = (q - t) / t;
      if (d < 0)
	d = -d;
      if (d > bad)
	bad = d;
    }
  CHECK (bad < 3.E-15DD);
""")

S("s15-rint-const", "S15",
  [("dfp/bits/dfp_dmathcalls.h", "__DECL_D(nearbyint, (__DECIMAL), __THROW)", "__DECL_D(nearbyint, (__DECIMAL), __THROW __attribute_const__)")],
  "a program that calls nearbyint on one operand in two rounding modes, compiled with optimisation",
  "the compiler takes nearbyint to depend on its operand alone and reuses the result of the other mode",
  """
  volatile _Decimal64 v = 2.5DD;
  _Decimal64 x = v, a, b;
  fe_dec_setround (FE_DEC_UPWARD);
  a = nearbyintd64 (x);
  fe_dec_setround (FE_DEC_DOWNWARD);
  b = nearbyintd64 (x);
  CHECK (a == 3.0DD && b == 2.0DD);
""")

S("s15-macro-wide", "S15",
  [("dfp/math.h", "(sizeof (x) == sizeof(_Decimal64) ? f ## d64 (x) : f ## d32 (x)))", "(sizeof (x) == sizeof(_Decimal64) ? f ## d64 (x) : f ## d64 (x)))")],
  "a subnormal _Decimal32 operand", "the type-generic macros use the 64-bit function for _Decimal32, where no such value is subnormal",
  """
  volatile _Decimal32 x = 1.E-98DF;
  CHECK (fpclassify (x) == FP_SUBNORMAL);
  CHECK (!isnormal (x));
""")

S("s15-const-digit", "S15",
  [("dfp/math.h", "1.1283791670955125738961589031215452DL", "1.1283791670955125738961589013215452DL")],
  "a program that uses M_2_SQRTPIdl in 34 digits", "two digits of 2/sqrt(pi) are exchanged near its end",
  """
  _Decimal128 p = M_PIdl, c = M_2_SQRTPIdl, d = c * c * p - 4.0DL;
  CHECK (d < 1.E-31DL && d > -1.E-31DL);
""")

NL = r"""
#include <dlfcn.h>
static int held;
static locale_t gone;
extern locale_t __newlocale (int, const char *, locale_t);
extern void __freelocale (locale_t);
locale_t newlocale (int m, const char *n, locale_t b) { held++; locale_t r = __newlocale (m, n, b); if (r == gone) gone = 0; return r; }
void freelocale (locale_t l) { held--; gone = l; }
int after;
extern int __strncasecmp_l (const char *, const char *, size_t, locale_t);
int strncasecmp_l (const char *a, const char *b, size_t n, locale_t l) { if (l == gone) after++; return __strncasecmp_l (a, b, n, l); }
"""

S("s16-exponent-leak", "S16",
  [("stdlib/strtod32.c", "		  freelocale(C_locale);\n		  RETURN (result, cp);\n", "		  RETURN (result, cp);\n")],
  "a number whose exponent is too large for the format", "the locale object of the call is never freed: strtod leaks memory in every locale but C",
  """
  char *e;
  strtod64 ("1.5", &e);
  CHECK (held == 0);
  strtod64 ("1e99999999", &e);
  CHECK (held == 0);
""", pre=NL)

S("s16-inf-after-free", "S16",
  [("stdlib/strtod32.c", "	  /* Return +/- infinity.  */\n	  if (endptr != NULL)", "	  /* Return +/- infinity.  */\n	  freelocale(C_locale);\n	  if (endptr != NULL)"),
   ("stdlib/strtod32.c", "			     ? 8 : 3));\n\n	  freelocale(C_locale);\n", "			     ? 8 : 3));\n\n")],
  "an infinity, an end pointer, and a locale other than C", "the text after inf is compared under a locale object that has been freed",
  """
  char *e;
  setlocale (LC_ALL, "C.UTF-8");
  strtod64 ("1.5", &e);
  CHECK (after == 0);
  strtod64 ("infinity", &e);
  CHECK (after == 0 && held == 0);
""", pre=NL)
