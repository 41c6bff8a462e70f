AI = "path-sensitive interprocedural abstract interpretation of GIMPLE/SSA over operand classes"
AIN = ("Sound for the operand classes listed, given the contracts assumed for libdecnumber, libc and IEEE arithmetic; classes the "
       "abstraction cannot settle are counted as undecided in the evidence and raise no alarm. A violation is reported only for a "
       "path whose branches are all decided by the operand class (or by arithmetic outcomes that can really occur).")
prop("S01", "Special operands give the results C23 and IEEE 754 prescribe",
     "For every decimal width, each elementary and auxiliary math function called with a NaN, an infinity, a signed zero, a pole or "
     "domain boundary, or an operand past the overflow threshold returns the class, sign and (where exact) the value that C23 Annex F "
     "and IEEE 754 prescribe, and stores the prescribed outputs through its pointer arguments.",
     ["inputs"], "all operands in each listed class (every NaN payload, zero exponent, value in a range), three widths, all rounding modes where the result does not depend on them",
     "the tests sample a few points of about half the functions; hypot, remainder, modf, frexp, atan2, tgamma, erf, scalbn and others have no test at all",
     ["ieee754r", "sysdeps/bid", "decNumberMath/decNumberMath.c"],
     [("special-operand dispatch at function entry", "ieee754r/*d32.c"), ("BID fmod", "sysdeps/bid/fmodd32.c"), ("series kernels", "decNumberMath/decNumberMath.c")],
     AI, AIN)
prop("S02", "errno reports domain and range errors, and nothing else",
     "A math function sets errno to EDOM on a domain error and to ERANGE on a pole error or overflow, for every operand in those classes; "
     "it leaves errno unchanged when the operands are NaNs, exact special cases or well inside the domain.",
     ["inputs"], "all operands in each listed class, three widths",
     "tests check errno for a handful of functions and points; the property quantifies over every operand class of every function",
     ["ieee754r", "sysdeps/bid", "include/dfpmacro.h"],
     [("errno wrappers around the IEEE variants", "ieee754r/*d32.c (INTERNAL_FUNCTION_NAME)"), ("DFP_ERRNO", "include/dfpmacro.h")],
     AI, AIN)
prop("S03", "Floating-point exceptions accompany domain, pole and overflow errors",
     "A math function raises the invalid exception on a domain error, divide-by-zero on a pole error and overflow when a finite operand "
     "gives an infinite result; it raises none of these three for quiet NaN operands, exact special cases or operands well inside the domain.",
     ["inputs"], "all operands in each listed class, three widths",
     "tests look at exception flags for very few functions; a missing or spurious flag needs one particular operand class of one function and width",
     ["ieee754r", "sysdeps/bid", "include/dfpmacro.h", "libbid/bid_decimal_globals.c"],
     [("DFP_EXCEPT", "include/dfpmacro.h"), ("status to fenv mapping", "libbid/bid_decimal_globals.c")],
     AI, AIN)

prop("S04", "Arithmetic on NaNs, infinities and zeros follows IEEE 754",
     "For every decimal width, the add, subtract, multiply and divide operations applied to operands of which one is a NaN or an infinity, "
     "or which are both zeros (for multiply and divide: one is a zero), return the class and sign IEEE 754 prescribes for every payload, "
     "sign and exponent; they raise invalid exactly for signaling NaNs, inf-inf, 0*inf, 0/0 and inf/inf, divide-by-zero exactly for a "
     "finite nonzero value over zero, and leave errno alone.",
     ["inputs"], "every pair of operand classes with a special operand (all payloads, exponents and encodings in the class), five rounding modes, three widths",
     "tests exercise a few dozen literal operand pairs, rarely signaling NaNs or large-exponent zeros, and no width's exception flags",
     ["libbid"], [("operand screening before the kernels", "libbid/bid*_add.c, bid*_mul.c, bid*_div.c"), ("entry points", "libbid/_addsub_*.c, _mul_*.c, _div_*.c"), ("status to fenv mapping", "libbid/bid_decimal_globals.c")],
     AI, AIN)
prop("S05", "Comparisons order every pair of operands correctly",
     "The relational operators and the quiet comparison macros on decimal operands return the truth value that the operands' numerical "
     "order prescribes: NaNs are unordered, zeros of any sign and exponent are equal, infinities bound every finite value, values of "
     "opposite sign compare by sign, and finite values that differ in the last digit, or only in how they are encoded (same value, different "
     "exponent), are told apart or found equal; no errno is set, and the quiet macros raise invalid only for signaling NaNs.",
     ["inputs"], "every pair of special-operand classes, and finite pairs at every exponent distance class (0, 1, the table limits, past the precision), three widths",
     "tests compare a handful of literals; equal values in different cohort members and neighbours at large exponent distances are not sampled",
     ["libbid", "ieee754r"], [("compensated comparison", "libbid/bid64_compare.c, bid128_compare.c"), ("entry points", "libbid/_lt_dd.c and kin"), ("quiet macros", "ieee754r/isgreaterd32.c and kin")],
     AI, AIN)
prop("S06", "Classification answers match the operand's class, quietly",
     "isnan, isinf, isfinite, isnormal, issignaling, signbit and fpclassify return the answer C23 prescribes for every NaN, infinity, "
     "zero, subnormal and normal value of each width, and set neither errno nor any exception flag, even for signaling NaNs.",
     ["inputs"], "every class of encodings, three widths",
     "tests try one representative per class and no signaling NaN; a classification error can hide in one coefficient form or in the subnormal boundary",
     ["libbid", "ieee754r"], [("library classification", "ieee754r/fpclassifyd32.c, isnand32.c and kin"), ("BID classification entry points", "libbid/_isinfd32.c, bid*_noncomp.c")],
     AI, AIN)

prop("S07", "Conversions to and from integers and between widths keep the value",
     "Converting a finite decimal to a 32, 64 or 128-bit integer type truncates toward zero whenever the truncated value fits the type; "
     "converting such an integer to a decimal type gives the exact value when it fits the precision and the nearest value (ties to even) in the "
     "default rounding mode when it does not. Converting between decimal widths keeps every value the target holds, NaNs, infinities and signed "
     "zeros, and otherwise rounds to nearest even once, overflowing to an infinity; none of these conversions sets errno, and none raises "
     "divide-by-zero.",
     ["inputs"], "coefficient ranges covering every length, both encodings, exponents over the whole span, the limits of each integer type, ties; three widths",
     "tests convert a few dozen literals; a wrong limb, limit or table entry shows for one digit count and exponent only",
     ["libbid", "base-math"], [("decimal to integer", "libbid/bid*_to_int32.c, bid*_to_int64.c, bid*_to_uint*.c, base-math/fixsdti.c"), ("integer to decimal", "libbid/bid_from_int.c, base-math/floattisd.c"),
     ("between widths", "libbid/bid32_to_bid64.c, bid32_to_bid128.c, bid64_to_bid128.c")],
     AI, AIN)
prop("S08", "Rounding to an integer honours the function's or the current mode",
     "In every rounding mode, rint, nearbyint, lrint and llrint round by the current mode; ceil, floor, trunc, round, roundeven, lround and "
     "llround round in their own fixed direction whatever the mode is; integral values, infinities and zeros come back unchanged, with their sign. "
     "rint, lrint and llrint raise inexact exactly when the value changes, nearbyint never does; the functions that return integers raise "
     "invalid and set errno to EDOM for NaNs, infinities and values beyond the type, and errno is otherwise left alone.",
     ["inputs", "configurations"], "five rounding modes times NaNs, infinities, zeros, ties, neighbours of ties and integers, integers of every length, wide ranges; three widths",
     "tests run these functions almost only in the default mode and on a few literals",
     ["ieee754r", "sysdeps/bid", "libbid"], [("integer-returning functions", "ieee754r/llroundd32.c, lrintd32.c and kin"), ("current mode", "include/mapround.h, sysdeps/soft-dfp/bid/fe_decround.c"),
     ("in the format", "ieee754r/rintd32.c, nearbyintd32.c, ceild32.c and kin")],
     AI, AIN)

prop("S09", "The constant tables hold the numbers they stand for",
     "Every entry of the library's constant tables that the code can reach equals its mathematical definition: powers of ten, reciprocals with "
     "their shifts, midpoints and rounding constants, digit counts, limits and shift tables of the integer and width conversions, the digit and "
     "declet tables, the exp and log tables and constants, and the rational approximations (each approximates its function to the "
     "precision it claims over its interval).",
     ["inputs"], "every entry of every listed table in every unit that defines it (some 30 000 numbers)",
     "a test reaches an entry only when an operand has just the right digit count or falls in one of a thousand sub-intervals; a wrong far digit "
     "hides inside the test tolerances",
     ["libbid", "libdecnumber", "ieee754r", "decNumberMath"], [("multiplication and conversion tables", "libbid/bid_decimal_data.c, bid128.c, bid_convert_data.c"), ("exp and log tables", "ieee754r/ddlogtbls.h, t_expd128.h, t_logd128.h"),
     ("rational approximations", "ieee754r/lgammad32.c, erfd32.c, log1pd32.c, expm1d32.c"), ("declet tables", "libdecnumber/decDPD.h")],
     "exact evaluation of the initialised data the compiler emits against independently computed definitions (constant audit)",
     "Exact for the tables with an integer definition; rational approximations are compared with the function (mpmath, 60 digits) on a grid of their "
     "interval, with a tolerance from the final precision. Tables no code refers to, and entries no index reaches, carry no obligation.")

prop("S10", "The rounding direction is what the program set, and stays that way",
     "fe_dec_setround accepts exactly the five FE_DEC_ directions, makes every later operation of the thread use the one requested, and "
     "returns nonzero leaving the direction alone for anything else; fe_dec_getround returns the direction in force. No other function of the "
     "library changes the direction: whatever path it takes, it returns with the direction it was called in. Functions whose result is exact "
     "(nextafter, nexttoward, nextup, nextdown, frexp, modf, ilogb, fmax, ...) and results for NaNs, infinities and zeros are the same in every direction.",
     ["inputs", "histories"], "every request in every mode; all inputs of every function that touches the mode (unconstrained operands), five modes; neighbours at every exponent boundary of each width",
     "tests set a mode, call once and compare; a path that leaves the mode changed shows only in what the program computes afterwards",
     ["sysdeps/soft-dfp", "sysdeps/generic/dfp_inline.h", "ieee754r", "libbid/bid_decimal_globals.c", "dfp/fenv.h"],
     [("interface", "sysdeps/soft-dfp/bid/fe_decround.c"), ("save and restore", "sysdeps/generic/dfp_inline.h (SET_RESTORE_DROUND)"), ("directed steps", "ieee754r/nextafterd32.c, nexttowardd32.c"), ("exp kernel", "ieee754r/expd128.c")],
     "whole-program effect analysis of stores to the mode variable, and abstract interpretation (typestate of the mode) of every function that reaches one",
     "Sound for mode preservation: every function reaching a store is interpreted on unconstrained operands in all five modes; exported functions that reach none are covered by the call graph. Exact results are checked on the listed classes.")

prop("S11", "Functions touch only their operands and the calling thread's state",
     "Apart from registering the printf hooks, no exported function stores, on any path, to storage that all threads share (static buffers, "
     "caches, global settings) or calls a libc function that changes process-wide state; the rounding direction and the status flags are "
     "per thread; no function clears exception flags or changes the binary rounding mode. So concurrent calls in different threads cannot disturb one another.",
     ["schedules", "histories"], "all paths of every exported function through the whole call graph (flow-insensitive)",
     "a race shows only under a particular interleaving; the tests are single-threaded",
     ["ieee754r", "libbid", "libdecnumber", "printf-hooks", "stdlib", "sysdeps", "base-math"],
     [("per-thread state", "libbid/bid_conf.h (BID_THREAD), libbid/bid_decimal_globals.c, sysdeps/soft-dfp/decroundtls.c"), ("hook registration", "printf-hooks/printf_dfp.c")],
     "whole-program effect and escape analysis over the call graph",
     "Sound up to the list of thread-unsafe libc functions and the one indirect call (the getround callback); stores through pointers are followed from every place the address of a writable static object is taken.")

prop("S12", "No function reads undefined data or strays outside its objects",
     "Called with any operands, no function of the library uses a variable, context, number or buffer that nothing on the way has written, "
     "indexes or points outside the object it accesses, writes to a constant, follows a null pointer, divides by zero or shifts a nonzero "
     "value by its width or more.",
     ["inputs"], "all operand classes of the math, arithmetic, comparison, conversion and rounding tables; unconstrained arguments of every exported function; every read of a local in every function",
     "an undefined read usually yields what happened to be on the stack and the tests pass; an index one past a table needs one digit count or exponent",
     ["ieee754r", "libbid", "libdecnumber", "decNumberMath", "base-math", "sysdeps"],
     [("decNumber work areas and contexts", "ieee754r/*.c (decContextDefault, FUNC_CONVERT_TO_DN)"), ("table indices", "libbid/bid_internal.h, bid_inline_add.h"), ("digit buffers", "sysdeps/bid/bid-private.c")],
     "definite-initialisation dataflow over every function, and abstract interpretation with memory, index and shift obligations",
     "Sound for the operand classes and functions explored completely; accesses the abstraction cannot bound, and functions on unconstrained arguments that exceed the path budget, are undecided. Reads decided by data-dependent paths only are seen by the interpreter, not by the dataflow analysis.")

prop("S13", "Exact functions return the exact value",
     "The functions whose result is defined exactly return it for every operand, however many digits it has, whichever encoding it uses and "
     "wherever in the exponent range it lies: modf and frexp split a value without loss, logb, ilogb and llogb give its exponent, ldexp, scalbn "
     "and scalbln scale it (rounding once, in the current mode, where the exponent range ends, with overflow reported), fmod and remainder are "
     "exact with the sign the standard gives, fdim of a representable difference and sqrt of a square are exact, fma and quantize round once, in the "
     "current rounding mode, quantize gives the result the quantum exponent of its second operand (or a NaN where it does not fit), and "
     "llquantexp, quantum and samequantum report the quantum exponent of their operands.",
     ["inputs"], "every stored representation of every finite operand of seventeen functions, three widths; all scale factors; five rounding modes for ldexp, scalbn, scalbln, quantize and fma",
     "the tests use short coefficients near 1 and the format limits; errors live at particular digit counts, the longer BID encoding, the last exponents and large quotients",
     ["ieee754r", "sysdeps/bid", "sysdeps/soft-dfp/bid"],
     [("scaling and splitting", "ieee754r/ldexpd32.c, scalbnd32.c, frexpd32.c, modfd32.c, logbd32.c, ilogbd32.c"), ("remainders", "sysdeps/bid/fmodd32.c, ieee754r/remainderd32.c"),
      ("digit counting and exponent field", "sysdeps/soft-dfp/bid/numdigits.h, sysdeps/bid/bid-private.c"), ("fma, fdim, sqrt", "ieee754r/fmad32.c, fdimd32.c, sqrtd32.c"), ("quantum exponents", "ieee754r/quantized32.c, quantumd32.c, llquantexpd32.c, samequantumd32.c")],
     "abstract interpretation of stored operand classes against exact decimal arithmetic",
     "The operands explored are those of every length, both encodings and the ends of the exponent range (ranges of coefficients where the code allows it), not every value; decNumber itself is taken by contract.")

prop("S14", "Elementary functions return a value close to the mathematical one",
     "exp, exp2, expm1, log, log2, log10, log1p, sqrt, cbrt, hypot, pow, the trigonometric and hyperbolic functions and their inverses, atan2, erf, erfc, "
     "tgamma and lgamma return, for every operand of their domain whose result is in the normal range, the mathematical value to within about ten "
     "units in the last place (a few units of 1 where the value is a difference of numbers near 1: expm1, log1p, sinh, tanh, asinh, atanh near zero; "
     "growing with the operand for tgamma): every branch, table entry, polynomial, series and argument reduction contributes its part whatever the sign, size or exponent of the operand.",
     ["inputs"], "narrow intervals spread over the domain of every elementary function, both signs, three widths, and covers of the central ranges by adjacent intervals",
     "the tests compare dozens of points with loose bounds; an error may live in one segment, one table entry, one remainder class of the exponent, or one sign",
     ["ieee754r", "decNumberMath"],
     [("polynomial and table kernels", "ieee754r/expd64.c, expd128.c, logd64.c, logd128.c, erfd32.c, lgammad32.c, tgammad32.c, asind32.c, acosd32.c, cbrtd32.c"),
      ("series", "decNumberMath/decNumberMath.c"), ("identities", "ieee754r/powd32.c, hypotd32.c, atan2d32.c, asinhd32.c, acoshd32.c, atanhd32.c, log1pd32.c, expm1d32.c")],
     "interval analysis (outward-rounded abstract interpretation) of the kernels against exact ranges",
     "The intervals are a sample of the domain plus covers of the central ranges, not the whole domain; slack is ten units for narrow intervals and 25% for covers; operands where the enclosure is too wide are undecided.")

prop("S15", "The installed interface describes the library",
     "Every function the installed headers declare has the prototype the standard gives it in each width, every exported name resolves, through its aliases, "
     "to a definition of that same type; fpclassify, signbit, isfinite, isnormal, isinf, isnan and issignaling reach the function of the operand's own type for "
     "all six floating types; the HUGE_VAL_D and M_ constants are the standard's values to 34 digits; a function declared const (calls may be merged or dropped) "
     "has no effect on errno or the exceptions and reads no memory; and the C++ stream operators convert with the functions of their width and never write or read "
     "beyond their buffers, whatever the value, its exponent or the precision and flags of the stream.",
     ["inputs", "configurations"], "every declared and exported function, macro, constant and C++ operator, by type, for the three widths and the binary types",
     "the tests include the headers but call through a handful of macros and constants; a compiler may optimise on a wrong attribute; a buffer overflows only for a value with a large exponent in fixed notation",
     ["dfp", "sysdeps", "ieee754r", "stdlib"],
     [("headers", "dfp/math.h, dfp/bits/dfp_dmathcalls.h, dfp/fenv.h, dfp/stdlib.h, dfp/wchar.h"), ("C++", "dfp/decimal/decimal"), ("exports", "Versions, sysdeps/x86_64/libdfp.abilist")],
     "compile-time type witnesses, intermediate representation of instantiated macros and templates, effect analysis of const declarations",
     "Names a header declares but the library has never implemented (j0, remquo, lgamma_r, ...) are out of scope.")

prop("S16", "Resources are released exactly once on every path",
     "Every memory block, stream and locale object a library function acquires (strtod, wcstod, strfromd, the decNumber kernel) is released exactly once, with the "
     "matching function, on every path out of it, whatever the operand or the text and wherever the call ends (end of input, malformed grouping, infinity, NaN, "
     "overflow, underflow, failed allocation); it is not used after its release; and the function does not use the result of an acquisition that failed.",
     ["inputs", "fault_sequences"], "every acquisition site and every control-flow path from it to the end of the function",
     "the tests run in the C locale, where the locale object is static and neither a leak nor a use after release shows; most exits and every failed acquisition are never taken",
     ["stdlib", "decNumberMath", "libdecnumber"],
     [("locale objects", "stdlib/strtod32.c (and its wide and other widths)"), ("memory streams", "stdlib/strfromd32.c"), ("working storage", "libdecnumber/decNumber.c")],
     "typestate dataflow over the control-flow graph of every function, with summaries of helpers",
     "Paths are not checked for feasibility beyond tests against null; a resource stored in memory or handed to a function that keeps it is not followed.")

# ---------------------------------------------------------------- declined
prop("N01", "Elementary functions are accurate to the last place for every operand",
     "For every finite operand, each transcendental function returns a value within one unit in the last place of the exact result.",
     ["inputs"], "every finite operand of every transcendental function, three widths",
     "tests sample dozens of points out of up to 10^34 significands",
     ["ieee754r", "decNumberMath"], [("polynomial and table kernels", "ieee754r/*.c")],
     na="Accuracy to the last place for every operand quantifies over up to 10^34 significands: interval analysis bounds the result to a few units on the intervals it is given (S14), but a bound of one unit over whole domains needs a rounding-error proof of each kernel that is out of reach here.")
prop("N02", "Decimal arithmetic is correctly rounded",
     "Addition, subtraction, multiplication, division, square root and fused multiply-add return the exact result correctly rounded in the current rounding mode.",
     ["inputs"], "all finite operand pairs, five rounding modes, three widths",
     "tests sample a few hundred operand pairs",
     ["libbid", "libdecnumber"], [("BID arithmetic kernels", "libbid/bid*_add.c, bid*_mul.c, bid*_div.c")],
     na="Correct rounding of 128/256-bit integer kernels over all operands is a runtime-value property (multiplication by reciprocal tables, carries); static dataflow cannot bound it. Special operands, tables and rounding-mode use are claimed separately.")
prop("N03", "String conversion round-trips every decimal value",
     "Printing a value with sufficient precision and reading it back yields the same number, and the preferred exponent where the format preserves it.",
     ["inputs"], "every representable value and conversion specification",
     "tests sample tens of values",
     ["printf-hooks/printf_dfp.c", "stdlib"], [("printf engine", "printf-hooks/printf_dfp.c"), ("strtod engine", "stdlib")],
     na="Round-trip equality relates the digit strings produced and consumed at run time by two large routines; no static argument in reach relates them for all values.")
