"""Mathematical definitions of the library's constant tables.

Every entry of TABLES gives, for one named table, the number each element has to hold, computed here
from first principles (exact integer arithmetic), never read from the library.

TABLES[name] = (element description, function index -> expected words or None)
The element description is a list of byte sizes of the words of one element; the function returns one
integer per word, None for a word (or an element) that is not constrained.
"""
from fractions import Fraction

M64 = (1 << 64) - 1


def words(v, n):
    return [(v >> (64 * i)) & M64 for i in range(n)]


def clog2(n):
    """smallest e with 2**e >= n"""
    return (n - 1).bit_length()


def norm_exp(k, W):
    """E such that 2^E / 10^k has exactly W integer bits"""
    E = W - 1
    while (1 << E) // 10 ** k < (1 << (W - 1)):
        E += 1
    return E


def floorq(E, k):
    return (1 << E) // 10 ** k


def rup(E, k):
    return -((-1 << E) // 10 ** k)


def topword(E, W):
    """the product's fraction has E bits, of which W are looked at word by word from the low end: position inside
    the word that holds the top of the fraction"""
    r = E - W
    return r % 64


def shift_of(E, W):
    """stored shift: distance to the 64-bit word boundary at or below E, at least W"""
    r = E - W
    return r % 64


TABLES = {}


def table(name, elem, fn, only=None):
    TABLES[name] = (elem, fn, only)


def simple(name, nw, fn):
    table(name, [8] * nw, lambda i: words(fn(i), nw) if fn(i) is not None else None)


# ---- powers of ten and midpoints
simple("__bid_midpoint64", 1, lambda i: 5 * 10 ** i)
simple("__bid_midpoint128", 2, lambda i: 5 * 10 ** (i + 19))
simple("__bid_midpoint192", 3, lambda i: 5 * 10 ** (i + 38))
simple("__bid_midpoint256", 4, lambda i: 5 * 10 ** (i + 58))
simple("__bid_ten2k64", 1, lambda i: 10 ** i)
simple("__bid_ten2k128", 2, lambda i: 10 ** (i + 20))
simple("__bid_ten2k256", 4, lambda i: 10 ** (i + 39))
simple("__bid_power10_table_128", 2, lambda i: 10 ** i)
simple("mult_factor", 1, lambda i: 10 ** i)


# ---- number of digits by number of bits
def nrdig(i):
    lo, hi = (1 << i), (1 << (i + 1)) - 1     # numbers with i+1 bits
    if i == 0:
        lo = 1
    d0, d1 = len(str(lo)), len(str(hi))
    t = 10 ** d0
    if d0 == d1:
        # every such number has d0 digits; threshold unused but holds 10^d0
        return [d0, None, None, None, None]
    return [0, None, t >> 64, t & M64, d0]


table("__bid_nr_digits", [4, 4, 8, 8, 8], nrdig)
table("__bid_estimate_decimal_digits", [4], lambda i: [len(str(1 << i))] if i < 128 else None)
table("__bid_estimate_bin_expon", [4], lambda i: [(10 ** i).bit_length() - 1])


def p10above(i):
    """smallest power of ten above 2^i"""
    p = 10
    while p <= (1 << i):
        p *= 10
    return p


simple("__bid_power10_index_binexp", 1, lambda i: p10above(i) if p10above(i) < 1 << 64 else None)
# (indices above 112 stand for coefficients of more than 113 bits, which do not exist)
simple("__bid_power10_index_binexp_128", 2, lambda i: p10above(i) if i <= 112 else None)


# ---- rounding increments, per BID rounding mode (0 nearest, 1 down, 2 up, 3 zero, 4 ties away)
def rc(mode, x):
    if x == 0:
        return 0
    return {0: 5 * 10 ** (x - 1), 1: 0, 2: 10 ** x - 1, 3: 0, 4: 5 * 10 ** (x - 1)}[mode]


simple("__bid_round_const_table", 1, lambda i: rc(i // 19, i % 19) if i < 95 else None)
simple("__bid_round_const_table_128", 2, lambda i: rc(i // 36, i % 36) if i < 180 else None)


# ---- reciprocals of powers of ten: K * 2^-E, rounded up, E normalised
def recip(name_k, name_e, W, first, kexp=None):
    pass


# tables for the general rounding functions: x = i+1
for W in (64, 128, 192, 256):
    nw = W // 64

    def mk(W=W, nw=nw):
        E = lambda i: norm_exp(i + 1, W)
        simple("__bid_Kx%d" % W, nw, lambda i: floorq(E(i), i + 1) + 1)
        table("__bid_Ex%dm%d" % (W, W), [4], lambda i: [shift_of(E(i), W)])
        simple("__bid_half%d" % W, 1, lambda i: 1 << ((E(i) - 1 - W) % 64))
        simple("__bid_mask%d" % W, 1, lambda i: (1 << ((E(i) - W) % 64)) - 1 if (E(i) - W) % 64 else M64)
        simple("__bid_ten2mxtrunc%d" % W, nw, lambda i: floorq(E(i), i + 1))
    mk()


# conversion/rounding tables of the 128-bit format
def e128(k):
    return max(128, norm_exp(k, 128) - 10)


def e64(k):
    return max(64, norm_exp(k, 64) - 10)


simple("__bid_ten2mk128", 2, lambda i: floorq(e128(i + 1), i + 1) + 1)
simple("__bid_ten2mk128trunc", 2, lambda i: floorq(e128(i + 1), i + 1))
table("__bid_shiftright128", [4], lambda i: [e128(i + 1) - 128])
# the low 64 bits above word 2 of the product: mask/half sit in word 2 (shift < 64) or word 3
simple("__bid_maskhigh128", 1, lambda i: (1 << ((e128(i + 1) - 128) - (64 if e128(i + 1) - 128 >= 64 else 0))) - 1)


def oh128(i):
    s = e128(i + 1) - 128
    if s == 0:
        return 0
    s -= 1
    return 1 << (s - (64 if s >= 64 else 0))


simple("__bid_onehalf128", 1, oh128)
simple("__bid_ten2mk64", 1, lambda i: floorq(e64(i + 1), i + 1) + 1)
for nm, W, k0 in (("128", 128, 1), ("192", 192, 5), ("256", 256, 24)):
    def mk(nm=nm, W=W, k0=k0):
        nw = W // 64
        E = lambda i: norm_exp(i + k0, W)
        base = 320 if W == 256 else W
        simple("__bid_ten2mk%sM" % nm, nw, lambda i: floorq(E(i), i + k0) + 1)
        simple("__bid_ten2mk%struncM" % nm, nw, lambda i: floorq(E(i), i + k0))
        table("__bid_shiftright%sM" % nm, [4], lambda i: [(E(i) - base) % 64])
        simple("__bid_maskhigh%sM" % nm, 1, lambda i: (1 << ((E(i) - base) % 64)) - 1)
        simple("__bid_onehalf%sM" % nm, 1, lambda i: 1 << ((E(i) - base - 1) % 64))
    mk()


# conversion to string by groups of three digits: 10^(-3(i+1)) rounded up
def m3(i, W):
    k = 3 * (i + 1)
    off = 1 if k % 2 else 3        # the source keeps 63/127 bits for odd multiples of 3, 61/125 for even ones
    E = norm_exp(k, W - off)
    return k, E


simple("__bid_ten2m3k64", 1, lambda i: rup(m3(i, 64)[1], m3(i, 64)[0]))
table("__bid_shift_ten2m3k64", [4], lambda i: [m3(i, 64)[1] - 64])
simple("__bid_ten2m3k128", 2, lambda i: rup(m3(i, 128)[1], m3(i, 128)[0]))
table("__bid_shift_ten2m3k128", [4], lambda i: [(m3(i, 128)[1] - 128) % 64])

table("__bid_char_table2", [1, 1], lambda i: [ord(c) for c in "%02d" % (i + 10)])
table("__bid_char_table3", [1, 1, 1], lambda i: [ord(c) for c in "%03d" % i])


# ---- densely packed decimal
def dpd_encode(n):
    a, b, c = n // 100, n // 10 % 10, n % 10
    A, B, C = a >> 3, b >> 3, c >> 3
    bit = lambda x, k: (x >> k) & 1
    pq, r = (a >> 1) & 3, a & 1
    st, u = (b >> 1) & 3, b & 1
    wx, y = (c >> 1) & 3, c & 1
    k = (A, B, C)
    if k == (0, 0, 0):
        f = (pq, r, st, u, 0, wx, y)
    elif k == (0, 0, 1):
        f = (pq, r, st, u, 1, 0, y)
    elif k == (0, 1, 0):
        f = (pq, r, wx, u, 1, 1, y)
    elif k == (1, 0, 0):
        f = (wx, r, st, u, 1, 2, y)
    elif k == (1, 1, 0):
        f = (wx, r, 0, u, 1, 3, y)
    elif k == (1, 0, 1):
        f = (st, r, 1, u, 1, 3, y)
    elif k == (0, 1, 1):
        f = (pq, r, 2, u, 1, 3, y)
    else:
        f = (0, r, 3, u, 1, 3, y)
    return f[0] << 8 | f[1] << 7 | f[2] << 5 | f[3] << 4 | f[4] << 3 | f[5] << 1 | f[6]


DPD_ENC = [dpd_encode(i) for i in range(1000)]


def dpd_decode(d):
    p, r, s, u, v, w, y = d >> 8 & 3, d >> 7 & 1, d >> 5 & 3, d >> 4 & 1, d >> 3 & 1, d >> 1 & 3, d & 1
    if v == 0:
        t = (p * 2 + r, s * 2 + u, w * 2 + y)
    elif w == 0:
        t = (p * 2 + r, s * 2 + u, 8 + y)
    elif w == 1:
        t = (p * 2 + r, 8 + u, s * 2 + y)
    elif w == 2:
        t = (8 + r, s * 2 + u, p * 2 + y)
    elif s == 0:
        t = (8 + r, 8 + u, p * 2 + y)
    elif s == 1:
        t = (8 + r, p * 2 + u, 8 + y)
    elif s == 2:
        t = (p * 2 + r, 8 + u, 8 + y)
    else:
        t = (8 + r, 8 + u, 8 + y)
    return t[0] * 100 + t[1] * 10 + t[2]


assert all(dpd_decode(DPD_ENC[i]) == i for i in range(1000))
for _k in range(1, 6):
    def mk(k):
        table("b2d" + (str(k) if k > 1 else ""), [8], lambda i: [DPD_ENC[i] << 10 * (k - 1)])
        table("d2b" + (str(k) if k > 1 else ""), [8], lambda i: [dpd_decode(i) * 1000 ** (k - 1)])
    mk(_k)
table("d2b6", [8], lambda i: [dpd_decode(i) * 10 ** 15])
table("dm103", [4], lambda i: [i * 1000])

# ---- decNumber
table("BIN2DPD", [2], lambda i: [DPD_ENC[i]])
table("DPD2BIN", [2], lambda i: [dpd_decode(i)])
table("DECPOWERS", [4], lambda i: [10 ** i])
table("BIN2CHAR", [1, 1, 1, 1], lambda i: [len(str(i)) if i else 0] + [ord(c) for c in "%03d" % i])
table("multies", [4], lambda i: [-((-1 << 17) // 5 ** i) + (1 if i == 0 else 0)])


table("COMBMSD", [4], lambda i: [(i & 7) if (i & 31) < 24 else (8 + (i & 1) if (i & 31) < 30 else None)])
table("exp10_ti", [16], lambda i: [10 ** i])


# ---- division support
def convert(i):
    j, k = i // 128, i % 128
    v = k << (26 + 7 * j)
    return [v % 10 ** 8, v // 10 ** 8 % 10 ** 8]


table("__bid_convert_table", [4, 4], convert)


def val(n, p):
    c = 0
    while n and n % p == 0:
        n //= p
        c += 1
    return c


table("__bid_factors", [1, 1], lambda i: [val(i + 1, 2), val(i + 1, 5)])


def packed(i):
    out = 0
    for k in (0, 2, 4, 6):
        n = 8 * i + k
        out |= (min(val(n, 10), 3) if n else 3) << k
    return [out]


table("__bid_packed_10000_zeros", [1], packed)


# ---- tables that only make sense together: fn(objs, referenced) -> None or (obligations, [(key, message)])
def get(o, i, n):
    return int.from_bytes(o.bytes[i * n:(i + 1) * n], "little")


def reciprocals(name, scale, W):
    def f(objs, refs):
        a, b = objs.get(name), objs.get(scale)
        if not a or not b or not a.size or not b.size or name not in refs:
            return None
        ok, bad = 0, []
        for i in range(1, a.size // (W // 8)):
            s = get(b, i, 4)
            r = get(a, i, W // 8)
            want = -((-1 << (W + s)) // 10 ** i)
            if s > 127 or r != want:
                bad.append(("%s[%d]" % (name, i), "%#x with scale %d is not 2^%d/10^%d rounded up" % (r, s, W + s, i)))
            else:
                ok += 1
        return ok, bad
    return f


GROUPS = [reciprocals("__bid_reciprocals10_128", "__bid_recip_scale", 128),
          reciprocals("__bid_reciprocals10_64", "__bid_short_recip_scale", 64),
          reciprocals("reciprocals10_128", "recip_scale", 128),
          reciprocals("reciprocals10_64", "short_recip_scale", 64)]


def lnnn(objs, refs):
    """decNumber's seed for ln of the middle of [i/100, (i+1)/100): entry k -> c*10^-e with c = k>>2, e = (k&3)+3, within the seed's tolerance"""
    o = objs.get("LNnn")
    if not o or not o.size or "LNnn" not in refs:
        return None
    import math
    ok, bad = 0, []
    for i in range(o.size // 2):
        t = get(o, i, 2)
        v = -(t >> 2) * 10.0 ** (-(t & 3) - 3)
        w = math.log((i + 10.5) / 100.0)
        if abs(v - w) > 0.005 * abs(w):
            bad.append(("LNnn[%d]" % i, "stands for %g, ln(%.3f) is %g" % (v, (i + 10.5) / 100.0, w)))
        else:
            ok += 1
    return ok, bad


def cdecoder(objs, refs):
    """five combination bits -> NaN, infinity"""
    o = objs.get("c_decoder")
    if not o or o.size != 128 or "c_decoder" not in refs:
        return None
    ok, bad = 0, []
    for i in range(32):
        b = get(o, i, 4)
        if (b & 1, b >> 1 & 1) != (int(i == 31), int(i == 30)):
            bad.append(("c_decoder[%d]" % i, "is_nan=%d is_inf=%d" % (b & 1, b >> 1 & 1)))
        else:
            ok += 1
    return ok, bad


def powers(name, sign):
    def f(objs, refs):
        o = objs.get(name)
        if not o or o.size % 16 or not o.size or name not in refs:
            return None
        ok, bad = 0, []
        for i in range(o.size // 16):
            w = get(o, i, 16)
            c, e = w & ((1 << 113) - 1), (w >> 113) - 6176
            if c * (10 ** (e + 40) if e + 40 >= 0 else 0) != 10 ** (sign * i + 40):
                bad.append(("%s[%d]" % (name, i), "is %de%d, not 1e%d" % (c, e, sign * i)))
            else:
                ok += 1
        return ok, bad
    return f


GROUPS += [lnnn, cdecoder, powers("powof10", 1), powers("negpowof10", -1)]


def d2u(objs, refs):
    """digits -> units, for whatever unit size the table was built with"""
    o = objs.get("d2utable")
    if not o or not o.size or "d2utable" not in refs:
        return None
    t = list(o.bytes[:o.size])
    n = t.count(1)
    ok, bad = 0, []
    for i, x in enumerate(t):
        if x != -(-i // n):
            bad.append(("d2utable[%d]" % i, "%d units for %d digits of %d per unit" % (x, i, n)))
        else:
            ok += 1
    return ok, bad


GROUPS.append(d2u)
