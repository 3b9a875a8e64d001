"""What each check runs: (build, entry point, parameters, options)."""
LEVEL = "model_checking"
ASSUMPTIONS = [
    "the LLVM IR that rustc emits (opt-level 1, fat LTO, one module) means what the LLVM language reference says; "
    "engine/ interprets it and z3 decides it - both trusted, cross-checked by replaying models of completed paths natively "
    "(and, thorough tier, by cvc5 on a sample of the queries)",
    "the allocator never fails; memory is byte-addressed, allocations are disjoint, out-of-bounds and use-after-free accesses are errors",
    "two builds are decided: rel (overflow wraps) and chk (overflow panics); 64-bit target",
]
SPECS = {}

# What is symbolic and what is bounded, per property: (always, quick, thorough)
ALL = ("all coefficient values symbolic over their full type range unless a range is named, in operands of up to 14 coefficients; of longer ones (the lengths above 14) five "
       "coefficients are symbolic and the others a fixed mixture of 0, 1, 2; float coefficients up to 2^100 in magnitude where arithmetic is involved; ")
BOUNDS = {
    "C01": (ALL + "dense stored lengths as listed, sparse term masks as listed plus up to 5 terms at any usize degree, looked-up degree any usize; i32, u8, f64",
            "dense lengths 0-5, 9, 12, 17-1030; 10 masks over degrees 0-6; sparse with up to 130 terms", "dense lengths 0-13, 17-1030; all masks over degrees 0-5; sparse with up to 130 terms"),
    "C02": (ALL + "dense pairs of stored lengths, sparse pairs of masks, sparse pairs of up to 2x2 terms at any usize degrees (3x3 thorough); i32, f64 (NaN, signed zeros included)",
            "lengths 0-4 x 0-4, up to 9x9, and pairs up to 1030x1030; 7x7 masks; 15-257 sparse terms", "lengths 0-7 x 0-7, up to 12x12, and pairs up to 1030x1030; all masks over degrees 0-3; 15-257 sparse terms"),
    "C03": (ALL + "every operator form; i32, u8, i8, f64 (f32 for the fixed-size types); sparse 1x2 terms at any usize degree; chk build: coefficients small enough not to overflow",
            "dense lengths 0-5 x 0-5, up to 12x10, and pairs up to 1030x1000; up to 257 sparse terms", "dense lengths 0-9 x 0-9, up to 17, and pairs up to 1030x1000; all masks over degrees 0-3; up to 257 sparse terms"),
    "C04": (ALL + "every multiplication form, powers, scalar forms; exponents up to 2^64-1 for monomials; i32, u8, i8; f64 for scalars, single-term and monomial products",
            "dense lengths up to 5x2, and pairs up to 129x65 and 1030x2; powers up to 7, 128 for two stored coefficients; up to 65x33 sparse terms", "dense lengths up to 6x6, 9x5, 8x8, and pairs up to 129x65 and 1030x2; powers up to 15, 128 for two stored coefficients; up to 65x33 sparse terms"),
    "C05": ("all coefficients symbolic; leading divisor coefficient 1, -1 or (i8 and short i32) any; i32, i8, GF(7) for the field law, f64 with abstracted arithmetic for termination; small whole f32 and f64 coefficients with a fixed leading divisor coefficient for the degree of the remainder",
            "dividend length <= 4, divisor length <= 3, and dividends of 10-1030 with divisors of 1-130 coefficients; up to 12 (and 19, 33, 40) stored leading zeros; sparse single-term pairs at any usize degree", "dividend length <= 5, divisor length <= 4, and dividends of 10-1030 with divisors of 1-130 coefficients; up to 12 (and 19, 33, 40) stored leading zeros; sparse single-term pairs at any usize degree"),
    "C06": (ALL + "shift amount any i32/u32 for sparse, monomial and fixed-size types and for shifting everything out of dense ones; dense otherwise -7..7; sparse and monomial degrees any usize below 2^62",
            "dense lengths 0-4, 17-1100; dense left shifts up to 300; up to 2 sparse terms of any degree, 200 at fixed ones", "dense lengths 0-9, 17-1100; dense left shifts up to 300; up to 3 sparse terms of any degree, 200 at fixed ones"),
    "C07": (ALL + "dense lengths up to 12 and around the representability limit of i8/u8, one term of any usize degree for ten integer types, f32 and f64 (float degrees: exact around 0, 2^24, 2^31, 2^53, 2^63, 2^64; any for the zero test and representability)",
            "dense lengths up to 12, 33-1100; up to 200 sparse terms", "dense lengths up to 12, 33-1100; up to 200 sparse terms"),
    "C08": (ALL + "dense lengths, sparse masks, one term of any usize degree for ten integer types, f32 and f64; definite integrals over all bounds within overflow limits",
            "dense lengths up to 5, 20-1100; up to 200 sparse terms", "dense lengths up to 9, 20-1100; up to 200 sparse terms"),
    "C09": (ALL + "the point symbolic; twelve integer types; degrees up to 2^64-1 for points 0, 1, -1; f32, f64 where the powers are exact (points +-2^j) and for degree one",
            "dense lengths 0-6, 20, 33 (symbolic point), up to 1100 (seven fixed points)", "dense lengths 0-9, 20, 33 (symbolic point), up to 1100 (points 0, 1, -1)"),
    "C10": (ALL + "sequences of symbolic edits (operation, coefficient and degree symbolic) on symbolic starting polynomials; i32, u8, f64; negation of a term for all 14 coefficient types",
            "1-2 edits, stored length up to 7; one edit far beyond a stored length of up to 33; 8 histories of 12 and 30 edits at fixed degrees with three symbolic coefficients; sums of up to 257 and 130 terms", "1-3 edits, stored length up to 7; one edit far beyond a stored length of up to 33; 32 histories of 12 and 30 edits at fixed degrees with three symbolic coefficients; sums of up to 257 and 130 terms"),
    "C11": ("every byte string of the given number of characters (all nine character classes, every digit, separators, unknown characters, two- and three-byte characters) and longer layouts with symbolic digits",
            "all strings up to 3 characters, 4 for i32; layouts up to several hundred characters", "all strings up to 5 characters"),
    "C12": (ALL + "dense stored lengths, masks, fixed-size types; i8, u8, i16, i32, i64, u64 over all values, every other integer type between -11 and 11 and at both limits, 21 f32/f64 values including those next to 1 and -1, the limits and infinities; sparse degrees up to 2^64-1",
            "dense lengths 0-3, 17-130 (8 bit), 0-2 (32 and 64 bit)", "dense lengths 0-4, 17-130 (8 bit), 0-3 (32 and 64 bit)"),
    "C13": ("leading coefficient and distance of the roots (or imaginary part) concrete, the position of the roots symbolic over the range in which b^2 and 4ac do not overflow; "
            "a, b concrete and c symbolic in a window of 8 for the classification; linear and monomial coefficients symbolic over the whole type",
            "i16, i32, i64, i128, isize (linear and monomial also i8); x(x - k) for every k in i16 and windows of 64 around the powers of two in i32", "i16, i32, i64, i128, isize (linear and monomial also i8); x(x - k) for every k in i16 and i32, windows of 64 in i64"),
    "C14": (ALL + "all 41 conversions between coefficient types for each of the five polynomial types; monomial and sparse degrees any usize",
            "dense lengths 0, 1, 3, 5, 17, 40, 130, 300; 0-2 sparse terms at any degree, 200 at fixed ones", "dense lengths 0-6, 9, 17, 40, 130, 300, 1100; 0-3 sparse terms at any degree, 200 at fixed ones"),
    "C15": ("coefficients any f64 of magnitude 2^-100 to 2^100 or zero of either sign, encoded exactly (QF_FP); any number of stored zero terms as listed; a lone sparse term of any usize degree; "
            "small-integer exact roots in symbolic windows of 4 around concrete values",
            "stored leading zeros 0-12, 16-70 (degree two: 0-3)", "stored leading zeros 0-12, 16-70 (degree two: 0-7)"),
    "C17": ("coefficients any f64 of magnitude 2^-6 to 2^6 or zero of either sign, every choice of lower terms; float arithmetic and the functions of libm uninterpreted (the same operations on the same values give the same result)",
            "stored leading zeros 0-2, up to one zero term stored at any higher degree", "stored leading zeros 0-5, up to two zero terms stored at any higher degrees"),
}


def spec(prop, tier):
    s = SPECS[prop](tier == "thorough")
    b = BOUNDS[prop]
    s["bounds"] = b[0] + "; " + b[2 if tier == "thorough" else 1]
    return s

def both(entry, plist, **o):
    return [(m, entry, list(p), o) for m in ("rel", "chk") for p in plist]
def rel(entry, plist, **o):
    return [("rel", entry, list(p), o) for p in plist]
def chk(entry, plist, **o):
    return [("chk", entry, list(p), o) for p in plist]

def grid(n, m):
    return [(i, j) for i in range(n + 1) for j in range(m + 1)]


MASKS = [0, 1, 0b10, 0b11, 0b101, 0b110, 0b1101, 0b10001, 0b1011011]


def c01(th):
    t = both("c01_list", [()])
    big = list(range(0, 6)) + [9, 12]
    if th:
        big = list(range(0, 14)) + [20]
    for e in ("dense_i32", "dense_u8", "dense_f64"):
        t += both("c01_" + e, [(n,) for n in big])
    for e in ("dense_build_i32", "dense_build_f64"):
        t += both("c01_" + e, [(n,) for n in big])
    ms = MASKS + ([m for m in range(64)] if th else [0b111111])
    for e in ("sparse_i32", "sparse_f64"):
        t += both("c01_" + e, [(m,) for m in ms])
        t += rel("c01_" + e.replace("_", "_trim_"), [(m,) for m in MASKS])
    for e in ("dense_i32", "dense_u8", "dense_f64"):
        t += rel("c01_" + e, [(n,) for n in (17, 32, 33, 40, 70, 128, 257, 300, 1030)])
    t += rel("c01_dense_build_i32", [(n,) for n in (17, 40, 70, 128, 257, 600)])
    t += rel("c01_sparse_long_i32", [(15, 3), (24, 1), (30, 5), (70, 2), (130, 1)])
    t += rel("c01_sparse_from_vec_i32", [(n,) for n in (20, 33, 128, 257, 600)])
    t += both("c01_sparse_from_vec_i32", [(n,) for n in big[:6 if not th else 10]])
    t += both("c01_sparse_any_degree_i32", [(n,) for n in range(4 if not th else 6)])
    for e in ("mono_i32", "mono_f64", "bin_i32", "bin_f64", "tri_i32", "tri_f64"):
        t += both("c01_" + e, [()])
    return dict(tasks=t, covers={"c01_dense_i32": {1, 2}, "c01_sparse_any_degree_i32": {1, 2}})


def c02(th):
    g = grid(4, 4) + [(9, 9), (9, 5), (3, 8)]
    if th:
        g = grid(7, 7) + [(9, 9), (9, 5), (3, 8), (12, 12)]
    t = []
    t += both("c02_dense_i32", g) + both("c02_dense_f64", grid(3, 3) + ([(5, 5)] if th else []))
    ms = [0, 1, 0b10, 0b101, 0b111, 0b1010, 0b110110]
    ms = [(a, b) for a in ms for b in ms]
    if th:
        ms += [(a, b) for a in range(16) for b in range(16)]
    t += both("c02_sparse_i32", ms) + both("c02_sparse_f64", [(0b101, 0b110), (0, 0b11), (0b111, 0b111)])
    t += rel("c02_dense_i32", [(17, 17), (20, 20), (3, 40), (40, 33), (40, 40), (33, 66), (130, 130), (257, 300), (513, 600), (1030, 1030)])
    t += rel("c02_sparse_long_i32", [(15, 15, 2), (24, 24, 1), (15, 30, 1), (30, 30, 3), (130, 130, 2), (257, 257, 1)])
    t += both("c02_sparse_any_degree_i32", grid(2, 2) + ([(3, 3)] if th else []))
    for e in ("mono_i32", "mono_f64", "small_i32", "small_f64"):
        t += both("c02_" + e, [()])
    two = {1, 2}
    return dict(tasks=t, covers={e: two for e in ("c02_dense_i32", "c02_dense_f64", "c02_sparse_i32", "c02_sparse_f64",
                "c02_sparse_any_degree_i32", "c02_mono_i32", "c02_mono_f64", "c02_small_i32", "c02_small_f64")})


def c03(th):
    g = grid(5, 5) + [(9, 0), (0, 9), (9, 4), (4, 9), (9, 9), (8, 9), (12, 10)]
    if th:
        g = grid(9, 9) + [(12, 13), (16, 17), (17, 4), (4, 17)]
    masks = [(0, 0), (1, 1), (0b101, 0b110), (0b11, 0b1100), (0b1011, 0b1101), (0b10000, 0b111), (0b1010101, 0b111), (0, 0b101), (0b101, 0)]
    if th:
        masks = [(a, b) for a in range(16) for b in range(16)] + masks
    t = []
    for e in ("dense_add_i32", "dense_add_u8", "dense_sub_i32", "dense_sub_i8"):
        t += both("c03_" + e, g)
    for e in ("sparse_add_i32", "sparse_add_u8", "sparse_sub_i32", "sparse_sub_i8"):
        t += both("c03_" + e, masks)
    t += rel("c03_dense_add_i32", [(33, 40), (70, 65), (3, 130), (130, 257), (513, 257), (600, 600)]) + rel("c03_dense_sub_i32", [(33, 40), (70, 65), (130, 3), (2, 70), (130, 257), (300, 300), (1030, 1000), (3, 1030)])
    t += rel("c03_sparse_long_i32", [(15, 12, 3), (15, 5, 1), (20, 24, 2), (30, 12, 3), (70, 64, 2), (200, 257, 2)])
    for e in ("dense_add_f64", "dense_sub_f64"):
        t += rel("c03_" + e, grid(3, 3) + [(5, 4), (4, 9)])
    for e in ("sparse_add_f64", "sparse_sub_f64"):
        t += rel("c03_" + e, masks[:9])
    t += rel("c03_sparse_sub_dense_f64", [(0b101, 3)])
    for e in ("small_f64", "small_f32"):
        t += rel("c03_" + e, [()])
    t += both("c03_sparse_sub_dense_i32", [(a, n) for a, n in [(0, 0), (0, 3), (0b101, 0), (0b101, 3), (0b1000, 5), (0b11011, 4)]])
    for e in ("sparse_any_degree_i32", "small_i32", "small_i8"):
        t += both("c03_" + e, [()])
    return dict(tasks=t, covers={})
SPECS["C03"] = c03


def c04(th):
    g = grid(3, 3) + [(4, 0), (0, 4), (4, 1), (4, 2), (4, 3), (1, 5), (2, 4), (2, 5), (5, 2)]
    if th:
        g = grid(6, 6) + [(9, 2), (2, 9), (9, 5), (5, 9), (8, 8)]
    t = both("c04_dense_mul_i32", g) + both("c04_dense_mul_u8", grid(3, 3))
    pw = [(0, 0), (0, 1), (0, 2), (0, 3), (1, 0), (1, 1), (1, 5), (2, 0), (2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (2, 6), (2, 7), (3, 0), (3, 2), (3, 3)]
    if th:
        pw += [(2, 8), (2, 9), (2, 11), (2, 15), (3, 4), (3, 5), (3, 6), (3, 7), (4, 4), (4, 5)]
    t += both("c04_dense_pow_i32", pw) + both("c04_dense_pow_i8", [(2, 8), (2, 9), (3, 4)])
    for e in ("dense_scalar_i32", "dense_scalar_u8"):
        t += both("c04_" + e, [(n,) for n in (0, 1, 2, 3, 5, 9)])
    t += both("c04_square", [(n,) for n in (0, 1, 2, 3)]) + rel("c04_square", [(4,), (17,), (33,), (65,)])
    t += rel("c04_dense_mul_i32", [(17, 3), (2, 33), (16, 5), (33, 17), (40, 2), (65, 3), (65, 33), (129, 2), (129, 65), (257, 2), (1030, 2)])
    t += rel("c04_dense_pow_i32", [(2, 10), (2, 15), (2, 16), (2, 17), (2, 32), (2, 33), (3, 10)])
    t += rel("c04_dense_scalar_i32", [(17,), (40,), (128,), (257,), (1030,)])
    t += rel("c04_sparse_mul_long_i32", [(15, 16, 1), (15, 2, 3), (20, 15, 2), (65, 33, 1), (130, 2, 3)])
    t += rel("c04_dense_mul_f64", [(0, 1), (1, 0), (1, 1)])
    t += rel("c04_sparse_mul_f64", [(1, 1), (0, 1)])
    t += rel("c04_dense_scalar_f64", [(0,)]) + rel("c04_sparse_scalar_f64", [(0,), (1,), (0b101,)])
    for e in ("mono_mul_f64", "small_scalar_f64", "small_scalar_f32"):
        t += rel("c04_" + e, [()])
    t += both("c04_scalar_round_trip", [(n,) for n in ((0, 1) if not th else (0, 1, 2))])
    ms = [0, 1, 0b10, 0b101, 0b110, 0b1011]
    ms = [(a, b) for a in ms for b in ms]
    if th:
        ms += [(a, b) for a in range(1, 16) for b in range(1, 16)]
    t += both("c04_sparse_mul_i32", ms)
    t += both("c04_sparse_pow_i32", [(m, k) for m in (0, 1, 0b10, 0b101, 0b11, 0b111) for k in ((0, 1, 2, 3, 4, 5) if not th else range(9)) if th or not (m == 7 and k > 3)])
    t += both("c04_sparse_pow_i8", [(7, 4), (0b1001, 6)])
    t += both("c04_sparse_scalar_i32", [(m,) for m in MASKS])
    t += both("c04_mono_mul_i32", [()])
    t += both("c04_mono_pow_i32", [(k,) for k in range(0, 10)]) + rel("c04_mono_pow_i32", [(k,) for k in list(range(10, 41)) + [63, 64, 65, 100, 128]])
    t += rel("c04_single_pow", [(k, d) for k in list(range(0, 41)) + [63, 64, 65] for d in (0, 1, 2)]) + rel("c04_single_pow", [(k, 5) for k in (2, 7, 12, 13)])
    t += rel("c04_dense_pow_i32", [(2, k) for k in range(11, 35) if k not in (15, 16, 17, 32, 33)]) + rel("c04_sparse_pow_i32", [(0b11, k) for k in range(10, 19)] + [(0b1001, 12)])
    t += rel("c04_dense_pow_i32", [(2, k) for k in (48, 63, 64, 65, 100, 128)]) + rel("c04_sparse_pow_i32", [(0b11, 33)])
    t += both("c04_mono_pow_big", [(k,) for k in BIG])
    for e in ("small_scalar_i32", "small_scalar_u8"):
        t += both("c04_" + e, [()])
    return dict(tasks=t, covers={})


BIG = [1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 63, (1 << 64) - 1]


def c05(th):
    t = []
    N = 4 if not th else 5
    for kind in (0, 1, 2):
        g = [(n, m, kind, z) for n in range(0, N + 1) for m in range(1, 4 if not th else 5) for z in range(0, min(2, m))]
        if kind == 2:
            g = [x for x in g if x[0] - (x[1] - x[3]) <= (1 if th else 0)]
        t += both("c05_dense_i32", g)
    # many stored leading zeros
    t += rel("c05_dense_i32", [(3, z + k, 0, z) for z in range(2, 13) for k in (1, 2)] + [(n + z, 2, 0, z << 8) for z in range(1, 13) for n in (1, 3)]
             + [(12, 11, 0, 9 | 10 << 8), (22, 21, 0, 19 | 19 << 8), (42, 35, 0, 33 | 40 << 8)])
    t += both("c05_dense_i32", [(n, m, 3, 0) for n in range(0, 5 if th else 4) for m in range(0, 4)])
    t += both("c05_dense_i8", [(n, m, 3, 0) for n in range(0, 5) for m in range(0, 4)])
    t += both("c05_dense_i8", [(n, m, 2, 0) for n, m in ((1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (4, 3))])
    t += rel("c05_dense_i32", [(n, m, 4, 0) for n, m in ((10, 2), (15, 1), (15, 2), (16, 3), (20, 4), (20, 17), (33, 9), (65, 3), (130, 66), (257, 3), (257, 130), (520, 2), (1030, 2))])
    t += rel("c05_sparse_i32", [(n, m, 4, 0, (1 << n) - 1, (1 << m) - 1) for n, m in ((15, 2), (16, 3), (20, 4), (33, 9))])
    t += both("c05_sparse_any_degree", [(0,), (1,)])
    t += both("c05_by_itself", [(n,) for n in (1, 2, 3, 5)]) + rel("c05_by_itself", [(9,), (20,), (33,), (130,)])
    t += both("c05_dense_by_zero", [(n, m) for n in range(0, 4) for m in range(0, 3)])
    sp = []
    for n, m, ma, mb in [(1, 1, 1, 1), (2, 1, 3, 1), (2, 2, 3, 3), (3, 2, 7, 3), (4, 2, 15, 3), (4, 3, 15, 7), (4, 2, 0b1001, 3), (5, 3, 0b10001, 0b101),
                         (5, 3, 0b10011, 0b110), (3, 3, 0b101, 0b101), (2, 3, 3, 5), (4, 2, 0b1110, 2)]:
        for kind in (0, 1):
            sp.append((n, m, kind, 0, ma, mb))
        if n - m <= (1 if th else 0):
            sp.append((n, m, 2, 0, ma, mb))
        sp.append((n, m, 3, 0, ma, mb))
    t += both("c05_sparse_i32", sp)
    t += both("c05_sparse_i8", [x for x in sp if x[2] == 3] + [(2, 1, 2, 0, 3, 1), (2, 2, 2, 0, 3, 3), (3, 2, 2, 0, 7, 3), (4, 3, 2, 0, 15, 7), (4, 3, 2, 0, 15, 5)])
    t += both("c05_sparse_by_zero", [(a, b) for a in (0, 1, 0b101) for b in (0, 1, 0b110)])
    t += rel("c05_dense_f7", [(n, m) for n in range(0, 4) for m in range(1, 4)] + ([(4, 2), (4, 3)] if th else []))
    t += rel("c05_sparse_f7", [(7, 1), (7, 3), (5, 3), (7, 5), (3, 7), (6, 2)])
    t += rel("c05_float_terminates", [(n, m, k) for n in range(0, 6) for m in range(1, 5) for k in (0, 1) if m <= n + 1], abs=1)
    for e, l in (("f32", 41), ("f64", 49)):
        t += rel("c05_float_small_" + e, [(n, m, k, l) for n, m in ((1, 1), (2, 1)) + (((2, 2),) if e == "f32" else ()) for k in (0, 1)])
    t += rel("c05_float_special", [(n, m, k) for n, m in ((1, 1), (2, 1), (2, 2), (3, 1)) for k in (0, 1)])
    return dict(tasks=t, covers={"c05_dense_by_zero": set(), "c05_sparse_by_zero": set()})


def c06(th):
    t = both("c06_dense", [(n,) for n in (range(0, 5) if not th else range(0, 10))])
    t += rel("c06_dense", [(n,) for n in (17, 33, 40, 128, 257)]) + rel("c06_dense_out", [(33,), (128,), (257,), (600,), (1100,)])
    t += both("c06_dense_far", [(n,) for n in (0, 1, 3, 20)])
    t += both("c06_dense_out", [(n,) for n in range(0, 5)])
    t += both("c06_sparse", [(m,) for m in MASKS])
    t += both("c06_sparse_any_degree", [(n,) for n in range(0, 3 if not th else 4)])
    t += rel("c06_sparse_long", [(15, 3), (30, 1), (70, 2), (200, 1)])
    t += both("c06_mono", [()]) + both("c06_small", [()])
    return dict(tasks=t, covers={"c06_mono": {1, 2, 3}})


# where usize stops being exact as a float, and the top of usize; windows of 16 below each
FD32 = [0, 1 << 24, (1 << 24) + 16, 1 << 31, (1 << 40) + 8, 1 << 63, (1 << 64) - 1]
FD64 = [0, 1 << 24, 1 << 31, 1 << 53, (1 << 53) + 16, 1 << 63, (1 << 63) + 4096, (1 << 64) - 2033, (1 << 64) - 1]


def c07(th):
    t = []
    for e in ("i8", "i32", "u32", "i64", "i128"):
        t += both("c07_dense_" + e, [(n,) for n in (0, 1, 2, 3, 5, 9, 12)])
    t += both("c07_dense_high_i8", [(n,) for n in (126, 127, 128, 129)])
    t += both("c07_dense_high_u8", [(n,) for n in (254, 255, 256, 257)])
    t += rel("c07_dense_i32", [(n,) for n in (33, 70, 128, 200, 257, 300, 600, 1100)])
    for e in ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128"):
        t += rel("c07_any_degree_" + e, [()])
    t += rel("c07_any_degree_f32", [(x, 0) for x in FD32] + [(0, 1)]) + rel("c07_any_degree_f64", [(x, 0) for x in FD64] + [(0, 1)])
    for e in ("f32", "f64"):
        t += rel("c07_dense_" + e, [(n,) for n in (0, 1, 2, 5)]) + rel("c07_small_" + e, [()])
    t += rel("c07_dense_u16", [(3,), (9,)]) + rel("c07_sparse_f64", [(m,) for m in (0, 1, 0b11, 0b1010)])
    for e in ("i8", "i32", "u64"):
        t += both("c07_small_" + e, [()])
    for e in ("i32", "u8"):
        t += both("c07_sparse_" + e, [(m,) for m in MASKS])
    t += rel("c07_sparse_long", [(15, 3), (30, 1), (70, 2), (200, 1)])
    return dict(tasks=t, covers={})


def c08(th):
    t = both("c08_list", [()])
    for e in ("i8", "u8", "i32", "i128"):
        t += both("c08_dense_" + e, [(n,) for n in ((0, 1, 2, 3, 5) if not th else (0, 1, 2, 3, 4, 5, 6, 9))])
    t += both("c08_dense_eval_i32", [(n,) for n in (0, 1, 2, 3)])
    for e in ("i8", "u8", "i32"):
        t += both("c08_sparse_" + e, [(m,) for m in MASKS])
    t += both("c08_sparse_eval_i32", [(m,) for m in (0, 1, 2, 3, 5)])
    t += rel("c08_dense_i32", [(n,) for n in (20, 40, 70, 128, 257, 300, 600, 1100)])
    for e in ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128"):
        t += rel("c08_any_degree_" + e, [()])
    t += rel("c08_any_degree_f32", [(x, 0) for x in FD32] + [(0, 1)]) + rel("c08_any_degree_f64", [(x, 0) for x in FD64] + ([(0, 1)] if th else []))
    for e in ("f32", "f64"):
        t += rel("c08_dense_" + e, [(n,) for n in (0, 1, 2, 4)]) + rel("c08_small_" + e, [()])
    t += rel("c08_dense_u16", [(3,)])
    t += both("c08_dense_high_i8", [(n,) for n in (125, 126, 127, 128, 129)]) + both("c08_dense_high_u8", [(n,) for n in (254, 255, 256)])
    t += both("c08_small_eval_i8", [()]) + both("c08_small_eval_i32", [()])
    t += both("c08_mono_i32", [(n,) for n in range(0, 6)]) + both("c08_mono_i8", [(n,) for n in range(0, 6)])
    for e in ("i8", "i32", "u64"):
        t += both("c08_small_" + e, [()])
    t += rel("c08_sparse_long", [(15, 3), (30, 1), (70, 2), (200, 1)])
    t += both("c08_inverse", [(n,) for n in range(0, 5)])
    return dict(tasks=t, covers={})


def c09(th):
    t = []
    for e in ("i32", "u8", "i128"):
        t += both("c09_dense_" + e, [(n,) for n in range(0, 7 if not th or e == "u8" else 10)])
    for e in ("i32", "i8", "u8", "i16", "u16", "u32", "i64", "u64", "i128", "u128", "isize", "usize"):
        t += both("c09_sparse_" + e, [(m,) for m in (0, 1, 2, 5, 6)] + ([(0b1101,), (0b10001,)] if e in ("i32", "i8") else []))
        t += both("c09_high_" + e, [(d,) for d in BIG])
    for e in ("i32", "i8", "u8", "i64", "u64", "i128"):
        t += both("c09_mono_" + e, [(n,) for n in range(0, 6)])
    for e in ("i32", "i8", "u64"):
        t += both("c09_small_" + e, [()])
    for e in ("i32", "i8", "i64"):
        t += both("c09_cancelled_" + e, [(d,) for d in (2, 3, 31, 200, 1 << 31, 1 << 32)])
    for e in ("i32", "i8", "u64", "i128"):
        t += rel("c09_mid_" + e, [(d, d // 2 + 1) for d in (list(range(3, 41)) + [63, 64, 65, 100, 127, 128, 255, 256] if e == "i32" else (7, 16, 31, 32, 33, 64))])
    t += rel("c09_dense_i32", [(n,) for n in (20, 33)]) + rel("c09_dense_u8", [(40,)])
    for e in ("f32", "f64"):
        t += rel("c09_float_exact_" + e, [(d,) for d in ((0, 1, 2, 3, 5) if not th else (0, 1, 2, 3, 4, 5, 6, 8))]) + rel("c09_float_linear_" + e, [()])
    t += rel("c09_long", [(15, 3), (30, 1), (70, 2), (128, 1), (257, 1), (600, 1), (1100, 1)])
    t += rel("c09_float_zero", [(n,) for n in range(0, 5)])
    t += rel("c09_float_cancelled", [(n,) for n in (1, 2, 3, 1 << 31)])
    t += rel("c09_float_high", [(n,) for n in BIG])
    return dict(tasks=t, covers={})


for _p in ("c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09"):
    SPECS[_p.upper()] = globals()[_p]


def c10(th):
    t = []
    ed = [(n, k) for n in (0, 1, 3) for k in (1, 2)] + [(5, 1), (7, 1)]
    if th:
        ed = [(n, k) for n in range(0, 8) for k in (1, 2)] + [(0, 3), (2, 3), (4, 3)]
    for e in ("i32", "u8"):
        t += both("c10_dense_edits_" + e, ed)
        t += both("c10_sparse_edits_" + e, [(m, k) for m in (0, 1, 0b10, 0b101, 0b11000) for k in (1, 2)] + ([(0, 3), (0b101, 3)] if th else []))
        t += both("c10_from_terms_" + e, [(n,) for n in range(0, 4 if not th else 5)])
        t += both("c10_bin_edit_" + e, [()]) + both("c10_tri_edit_" + e, [()])
    for e in "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64".split():
        t += rel("c10_negate_" + e, [()])
    t += rel("c10_dense_far_i32", [(n,) for n in (0, 1, 16, 33)])
    t += rel("c10_dense_edits_f64", [(0, 1), (1, 1), (3, 1), (2, 2)]) + rel("c10_sparse_edits_f64", [(0, 1), (0b101, 1)])
    t += rel("c10_from_terms_f64", [(0,), (1,), (2,)])
    for e in ("mono", "bin", "tri"):
        t += rel("c10_%s_edit_f64" % e, [()])
    t += both("c10_sparse_any_degree", [()])
    t += both("c10_mono_edit_i32", [()]) + both("c10_mono_edit_i8", [()])
    sm = [(n, m, s) for n in (0, 1, 2, 3) for m in (0, 1, 0b10, 0b101) for s in (0, 2)]
    if th:
        sm = [(n, m, s) for n in range(0, 5) for m in (0, 1, 0b10, 0b101, 0b110, 0b1011) for s in (0, 1, 2, 4)]
    t += chk("c10_sums_i32", sm) + rel("c10_sums_i32", [x for x in sm if th or x[:2] != (3, 5)]) + both("c10_sums_i8", [x for x in sm if x[0] < 3])
    t += both("c10_macros", [(n, m) for n in range(0, 3) for m in range(0, 3)])
    t += rel("c10_sparse_edit_long", [(n,) for n in (15, 30, 70, 200, 600)]) + rel("c10_from_terms_long", [(n,) for n in (5, 15, 40, 130, 300)])
    t += both("c10_history", [(s, k) for s in range(0, 4 if not th else 16) for k in (12, 30)])
    t += rel("c10_sums_long", [(17, 15), (40, 16), (65, 33), (130, 65), (257, 130)])
    t += both("c10_product_sinks", [()])
    t += both("c10_small_sinks", [(m,) for m in (0, 1, 0b10, 0b11, 0b100, 0b101, 0b110, 0b111, 0b1000, 0b1010)])
    cov = {"c10_mono_edit_i32": {1, 2, 3}, "c10_mono_edit_i8": {1, 2, 3}}
    for e in ("bin", "tri"):
        for ty in ("i32", "u8"):
            cov["c10_%s_edit_%s" % (e, ty)] = {1, 2}
    return dict(tasks=t, covers=cov)


SPECS["C10"] = c10


CLS = " _+-.dx^?"  # character classes of c11.rs; u: two-byte, w: three-byte character
def lay(s):
    """parameters of a layout: length, classes packed 16 to a word"""
    ks = [{"u": 9, "w": 10, "0": 11, "1": 12, "7": 13, "9": 14}.get(c, CLS.find(c)) for c in s]
    assert -1 not in ks, s
    out = [len(s)]
    for i in range(0, len(ks), 16):
        out.append(sum(k << (4 * j) for j, k in enumerate(ks[i:i + 16])))
    return out
TERM_LAYOUTS = ["d", "dd", "ddd", "-ddd", "+ddd", "dddx", "-dddx", "dddx^d", "-dddx^dd", "- d x ^ d", "d_ddx", "x^ddd", "-x^dd", "+x",
                "uddx", "ddxu", "dwx^d", "x^du", "?d", "d?x", "x^d?", "dx^d.d", "d.dx"]
TERM_LAYOUTS_BIG = ["dddd", "ddddx", "x^dddd", "-ddddx^dd"]
SUM_LAYOUTS = ["dx+d", "dx^d+dx", "dx^d + dx + d", "-dx^d - dx - d", " -x + x", "dx^d+dx^d", "dx^d-dx^d+dx^d", "ddx^d+ddx-dd", "x^dd-dd", "d + d + d - x",
               "d+ux", "du+dx", "dx+dw", "w-d", "dx+", "+d+", "d++d", "d +- d", "dx x", "dx^ - d", "dx^d ^d", "dx-?"]
# 0, 1, 7, 9: known digits
LONG_LAYOUTS = ["dx^19 + 9x^17 - 7x^11 + x^10 - x^9 + dx^7 - 1x - d", "x+x+x+x+x+x+x+x+x+x+x+x+x+x+x+x+d", "-1-1-1-1-1-1-1-1-1-1-1-1-1-1-1-1-1-d",
                "0000000000000000000000000000000000dx", "x^0000000000000000000000000000000000d - 1", "                                        dx^d                                        ",
                "1____7x^1___d", "x^19+x^17+x^11+x^10+x^9+x^7+x^1+x^0+x^19+x^17+x^11+x^10+x^9+x^7+x^1-d",
                "x^19+x^17+x^11+x^10+x^9+x^7+x^1+x^0+x^19+x^17+x^11+x^10+x^9+x^7+x^1-?", "x^19+x^17+x^11+x^10+x^9+x^7+x^1+x^0+x^19+x^17+x^11+x^10+x^9+x^7+xx"]


def c11(th):
    t = []
    for e in ("i32", "i8", "u8"):
        ns = [1, 2, 3]
        t += rel("c11_term_" + e, [(n, 0) for n in ns])
        t += rel("c11_term_" + e, [(4, 1, a) for a in range(9)] if e == "i32" or th else [])
        if th:
            t += rel("c11_term_" + e, [(5, 2, a, b) for a in range(9) for b in range(9)])
    t += chk("c11_term_i32", [(n, 0) for n in (1, 2, 3)])
    for e in ("i8", "u8", "i32", "i64"):
        t += both("c11_term_layout_" + e, [lay(s) for s in TERM_LAYOUTS])
    for e in ("i32", "i64"):
        t += both("c11_term_layout_" + e, [lay(s) for s in TERM_LAYOUTS_BIG + (["ddddd", "dddddd"] if th else [])])
    for e in ("i8", "u8", "i16", "i32", "i64"):
        t += both("c11_term_limit_" + e, [(k,) for k in range(12)])
    t += both("c11_sum_i32", [(1, 0), (2, 0), (3, 0)])
    t += both("c11_sum_u8", [(1, 0), (2, 0)] + ([(3, 0)] if th else []))
    t += rel("c11_sum_i32", [(4, 1, a) for a in range(9)])
    if th:
        t += rel("c11_sum_i32", [(5, 2, a, b) for a in range(9) for b in range(9)])
    t += both("c11_sum_layout_i32", [lay(s) for s in SUM_LAYOUTS])
    t += both("c11_sum_layout_i8", [lay(s) for s in SUM_LAYOUTS])
    t += rel("c11_sum_layout_i32", [lay(s) for s in LONG_LAYOUTS])
    t += rel("c11_term_layout_i32", [lay(s) for s in LONG_LAYOUTS[3:7]])
    t += both("c11_empty", [()]) + rel("c11_float", [()])
    return dict(tasks=t, covers={})
SPECS["C11"] = c11


def c12(th):
    t = []
    ms = [0, 1, 0b10, 0b101, 0b1100, 1 << 20 | 1]
    ns = (0, 1, 2, 3) if not th else (0, 1, 2, 3, 4)
    for e in ("i8", "u8"):
        t += both("c12_dense_" + e, [(n,) for n in ns])
        t += both("c12_round_trip_" + e, [(n,) for n in (0, 1)]) + rel("c12_round_trip_" + e, [(2,)] + ([(3,)] if th else []))
        t += chk("c12_round_trip_" + e, [(2,)] if th else [])
        t += both("c12_integral_" + e, [(n,) for n in (0, 1, 2)])
    for e in ("i32", "u64", "i64"):
        t += rel("c12_dense_" + e, [(n,) for n in ((0, 1, 2) if not th else (0, 1, 2, 3))])
    t += both("c12_round_trip_i16", [(1,)])
    t += both("c12_sparse_i8", [(m,) for m in ms]) + both("c12_sparse_i16", [(m,) for m in ms])
    t += rel("c12_sparse_round_trip_i8", [(m,) for m in ms]) + chk("c12_sparse_round_trip_i8", [(m,) for m in (ms if th else ms[:3])])
    for e in ("small_i8", "small_i16"):
        t += both("c12_" + e, [(0,), (1,), (2,)])
    t += rel("c12_small_round_trip_i8", [(0,), (2,)] + ([(1,)] if th else [])) + chk("c12_small_round_trip_i8", [(0,), (2,)] if th else [])
    for e in "u16 u32 u128 usize i128 isize i32 i64 u64".split():
        t += rel("c12_window_" + e, [()])
    t += rel("c12_long_i8", [(n,) for n in (17, 20, 40, 70, 130)]) + rel("c12_float_small_f32", [()]) + rel("c12_float_small_f64", [()])
    t += rel("c12_far", [()])
    for e in ("f32", "f64"):
        t += rel("c12_float_edge_" + e, [(k,) for k in range(14)])
    t += rel("c12_float", [(n,) for n in (0, 1, 2, 3)])
    return dict(tasks=t, covers={})
SPECS["C12"] = c12


def c13(th):
    t = []
    o = lambda *v: tuple(x + 1000 for x in v)
    # (a, k) concrete, roots r and r + k with |r| <= R: R is the largest round value for which
    # nothing the formula computes (b^2, 4ac) overflows
    for e, mx, As, ks in (("i16", 2 ** 15, (1, -1, 2, -3), (0, 1, 2, 5, 9)), ("i32", 2 ** 31, (1, -1, 2, 5, -7, 100), (0, 1, 3, 10, 999)),
                          ("i64", 2 ** 63, (1, -2, 999), (0, 1, 999)), ("isize", 2 ** 63, (1, -3), (0, 4))):
        def fits(a, k, R):
            b, c = abs(a) * (2 * R + k), abs(a) * R * (R + k)
            return b * b < mx and 4 * abs(a) * c < mx and b * b + 4 * abs(a) * c < mx and 4 * a * a * (R * R + k * k) * 2 < mx
        def R(a, k):
            r = 0
            while fits(a, k, 2 * r + 1):
                r = 2 * r + 1
            return r
        t += both("c13_exact_" + e, [o(a, k) + (R(a, k),) for a in As for k in ks if fits(a, k, 3)])
        t += both("c13_complex_" + e, [o(a, k) + (R(a, k),) for a in As for k in ks if k and fits(a, k, 3)])
    t += both("c13_square_i16", [(k, 7, 0) for k in range(0, 176, 8)] + [(176, 3, 0)])
    t += both("c13_square_i32", [(k, 3, 0) for k in (0, 4, 100, 255, 1000, 4095, 32766, 46336)])
    t += both("c13_square_i64", [(k, 3, 0) for k in (0, 65535, 1 << 20, (1 << 31) - 2, 3037000495)])
    t += rel("c13_square_i32", [(k, 63, 0) for j in range(6, 16) for k in (1 << j, 3 << j - 1) if k <= 46276] + [(46276, 63, 0)])
    t += rel("c13_square_i64", [(k, 3 if not th else 63, 0) for j in (8, 15, 18, 22, 24, 26, 27, 29, 30) for k in ((1 << j) - 2, (3 << j - 1) + 5)])
    if th:
        t += rel("c13_square_i32", [(k, 63, 0) for k in range(0, 46272, 64)])
    t += both("c13_square_isize", [(k, 3, 0) for k in (4, (1 << 31) - 2)])
    for e in ("exact", "complex"):
        t += both("c13_%s_i128" % e, [o(a, k) + (R,) for a, k, R in ((1, 3, 3), (-1, 1 << 34, 3), (2, 1 << 50, 1))])
    for e in ("exact", "complex"):
        t += both("c13_%s_i128" % e, [o(a, k) + (1,) for a, k in ((1, (1 << 61) + 12345), (-1, (1 << 60) + 7))])
    t += both("c13_square_i128", [(k, 1, 0) for k in (0, 1 << 33, (1 << 61) + 1234)])
    for e in ("i16", "i32"):
        t += both("c13_general_" + e, [o(a, b, c) + (7,) for a in (1, -1, 3, -7) for b in (0, 1, -5, 12) for c in (-8, 0, 8)])
    for e in ("linear_i16", "linear_i32", "linear_i64", "linear_i128", "linear_exact_i16", "linear_exact_i32", "linear_i8", "mono_i8", "mono_i32", "mono_i16", "mono_i128"):
        t += both("c13_" + e, [()])
    t += rel("c13_float_linear", [()])
    return dict(tasks=t, covers={})
SPECS["C13"] = c13


def c14(th):
    t = []
    ps = range(41)
    for e in ("mono", "bin", "tri"):
        t += both("c14_" + e, [(i,) for i in ps])
    t += both("c14_dense", [(i, n) for i in ps for n in ((0, 1, 3, 5) if not th else (0, 1, 2, 3, 4, 5, 6, 9))])
    t += both("c14_sparse", [(i, n) for i in ps for n in ((0, 1, 2) if not th else (0, 1, 2, 3))])
    t += rel("c14_dense", [(i, n) for i in ps for n in (17, 40, 130)] + [(i, 300) for i in (0, 9, 20, 27, 30, 36, 40)])
    t += rel("c14_sparse_long", [(15, 3), (30, 1), (70, 2), (200, 1)])
    return dict(tasks=t, covers={})
SPECS["C14"] = c14


def c15(th):
    o = lambda *v: tuple(x + 1000 for x in v)
    t = rel("c15_dense", [(n, z) for n in range(0, 4) for z in range(0, 4 if not th else 8)])
    t += rel("c15_dense", [(n, z) for n in (1, 2) for z in (range(4, 13) if not th else range(8, 13))])
    t += rel("c15_dense", [(n, z) for n in (0, 1, 2) for z in (16, 20, 33, 70)])
    t += rel("c15_sparse", [(m, z) for m in range(0, 8) for z in (0, 1)])
    for e in ("lone", "tri", "bin", "tri_f32", "bin_f32", "factors", "factors_f32", "mono", "mono_f32"):
        t += rel("c15_" + e, [()])
    t += rel("c15_exact", [o(a, k, r) + (1,) for a in (1, -1) for k in (0, 1, 4) for r in (-6, -1, 2)])
    return dict(tasks=t, covers={"c15_dense": {1, 2, 3, 4}, "c15_sparse": {1, 2, 3, 4}, "c15_tri": {1, 2, 3}, "c15_tri_f32": {1, 2, 3},
                "c15_factors": {1, 2, 3}, "c15_factors_f32": {1, 2, 3}})
SPECS["C15"] = c15


def c17(th):
    t = rel("c17_dense", [(z, m) for z in range(0, 3 if not th else 6) for m in range(1, 8)], loose=1)
    t += rel("c17_sparse", [(m, z) for z in range(0, 2 if not th else 3) for m in range(1, 8)], loose=1)
    return dict(tasks=t, covers={"c17_dense": {1, 2, 3}, "c17_sparse": {1, 2, 3}})
SPECS["C17"] = c17
