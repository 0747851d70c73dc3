"""Which harness runs, with which bounds, decide which property."""
KS, FFT, NB, NBB, MB, MBB = range(6)


def spec(r):
    return (r["h"], int(r.get("int", 0)), int(r.get("asan", 0)), int(r.get("ndebug", 0)), r.get("main", ""), int(r.get("rng", 1)))


def R(h, _thorough=False, **kw):
    opts = {k: kw.pop(k) for k in ("int", "asan", "ndebug", "main", "rng", "witness", "variants", "validate", "nsamples", "only") if k in kw}
    d = dict(h=h, params=kw)
    d.update(opts)
    if _thorough:
        d["thorough"] = True
    return d


def T(h, **kw):
    return R(h, True, **kw)


def lv(h, ns, Ks, pats, th=False, **kw):
    return [R(h, th, n=n, levels=K, pat=p, **kw) for n in ns for K in Ks for p in pats]


ASSUMPTIONS = [
    "floating point of the algorithms is executed over exact reals (boxed symbolic values): rounding error, overflow and underflow are outside the claim",
    "clang 18 -O1 front end IR of the sources with the Makefile's -ffast-math -fwrapv; the g++ -O3 -march=native build is tied to it by replaying sampled paths",
    "libstdc++ templates are executed symbolically with the code; libc, FFTW, strtod, iostream are modelled by contract",
]

PROPERTIES = {}


INT = [
    "bit-precise: integers, bytes, pointers and IEEE doubles are bit vectors / SMT floating point, no overflow or rounding is abstracted",
    "clang 18 -O1 front end IR of the sources with the Makefile's -ffast-math -fwrapv; the g++ -O3 -march=native build is tied to it by replaying sampled paths",
    "libstdc++ templates are executed symbolically with the code; libc (strtod, strtol, memcpy, ...) and iostream are modelled by contract",
]
INTTECH = "bit-precise symbolic execution of the compiled sources (LLVM IR) over bit vectors and IEEE doubles, assertions decided by Z3"


def prop(pid, bounds, runs, **kw):
    PROPERTIES[pid] = dict(bounds=bounds, runs=runs, **kw)


# ---------------------------------------------------------------- two-sided
prop("C01", "n<=4 (thorough 5): every pair of non-decreasing boundary vectors in [0,1]; n in {5,6} (thorough 8): boundaries on 2 symbolic levels plus 0 and 1, every assignment of "
     "bounds to levels; n<=64 (thorough 130): listed assignments to K<=3 symbolic levels",
     [R("h_ecdf2", n=n, fft=0) for n in (0, 1, 2, 3, 4)] + [T("h_ecdf2", n=5, fft=0, time=1500)]
     + [R("h_ecdf2", n=5, fft=0, levels=2, pat=-1), R("h_ecdf2", n=6, fft=0, levels=2, pat=-1), T("h_ecdf2", n=8, fft=0, levels=2, pat=-1, time=900), T("h_ecdf2", n=5, fft=0, levels=3, pat=-1, time=1500)]
     + lv("h_ecdf2", (8, 11, 17), (2, 3), (0, 1, 2, 3), fft=0) + lv("h_ecdf2", (33,), (2,), (1, 2), fft=0) + lv("h_ecdf2", (64,), (1,), (1, 7), fft=0)
     + lv("h_ecdf2", (7, 9, 12, 16), (3, 4), range(4, 12), True, fft=0) + lv("h_ecdf2", (130,), (1,), (1, 2), True, fft=0)
     + lv("h_ecdf2", (180,), (1,), (1, 4), fft=0, wide=3, pathtime=300) + lv("h_ecdf2", (520,), (1,), (1,), fft=0, wide=4, fix=1, pathtime=300) + lv("h_ecdf2", (1200,), (1,), (1,), True, fft=0, wide=3, fix=1, pathtime=900))
prop("C02", "n<=3 (thorough 4): every pair of boundary vectors; n in {5,6}: every assignment to 2 symbolic levels; n<=64: listed assignments to K<=3 levels; n in 126..150 with windows "
     "around and above the FFT threshold: K=1 symbolic level (one run K=2 with one level constant)",
     [R("h_ecdf2", n=130, fft=1, levels=2, pat=2, wide=1, fix=1, pathtime=250), R("h_ecdf2", n=150, fft=1, levels=1, pat=1, wide=1)]
     + [R("h_ecdf2", n=n, fft=1) for n in (0, 1, 2, 3)] + [T("h_ecdf2", n=4, fft=1, time=600)]
     + [R("h_ecdf2", n=5, fft=1, levels=2, pat=-1), T("h_ecdf2", n=8, fft=1, levels=2, pat=-1, time=900)]
     + lv("h_ecdf2", (8, 17), (2, 3), (0, 1, 2), fft=1) + lv("h_ecdf2", (33,), (2,), (1, 2), fft=1) + lv("h_ecdf2", (64,), (1,), (1, 7), fft=1)
     + lv("h_ecdf2", (126, 127, 128, 129, 135), (1,), (1, 2), fft=1, wide=1) + lv("h_ecdf2", (150, 200), (1,), (3, 4), True, fft=1, wide=1, pathtime=600, time=900)
     + lv("h_ecdf2", (130, 135), (2,), (3, 4), True, fft=1, wide=1, fix=2, pathtime=900, time=1500)
     + lv("h_ecdf2", (180,), (1,), (1,), fft=1, wide=2, pathtime=300) + lv("h_ecdf2", (520,), (1,), (1,), fft=1, wide=4, fix=1, pathtime=300) + lv("h_ecdf2", (1100,), (1,), (1,), True, fft=1, wide=3, fix=1, pathtime=900))

# ---------------------------------------------------------------- one-sided
def onesided(lo, hi, full, more):
    r = []
    for op in (lo, hi):
        r += [R("h_ecdf1", n=n, op=op) for n in range(0, full + 1)] + [T("h_ecdf1", n=n, op=op, time=900) for n in range(full + 1, more + 1)]
        r += [R("h_ecdf1", n=12, op=op, levels=2, pat=-1), T("h_ecdf1", n=20, op=op, levels=2, pat=-1, time=900), T("h_ecdf1", n=10, op=op, levels=3, pat=-1, time=1500)]
        r += lv("h_ecdf1", (10, 16), (3,), (0, 1, 2), op=op) + lv("h_ecdf1", (17, 18, 33), (2,), (1, 2), op=op) + lv("h_ecdf1", (34, 50, 65), (1,), (1, 2), op=op)
        r += lv("h_ecdf1", (17, 25, 33, 49), (3,), (1, 2, 3), True, op=op, time=300)
        r += lv("h_ecdf1", (130,), (1,), (1,), op=op, wide=1)
        r += lv("h_ecdf1", (180,), (1,), (1, 4), op=op, wide=3, pathtime=300) + lv("h_ecdf1", (1000,), (1,), (1, 2), op=op, wide=5, fix=1, pathtime=300)
        r += [(R if op in (MB, MBB) else T)("h_ecdf1", n=2000, op=op, levels=1, pat=1, wide=3, fix=1, pathtime=400)]
    return r


prop("C03", "n<=8 (thorough 11): every boundary vector; n=12 (thorough 20): every assignment to 2 symbolic levels; n<=65 listed assignments to K<=3 levels; n=130 (FFT sizes) K=1", onesided(NB, NBB, 8, 11))
prop("C04", "n<=8 (thorough 11): every boundary vector; n=12 (thorough 20): every assignment to 2 symbolic levels; n<=65 listed assignments to K<=3 levels; n=130 K=1", onesided(MB, MBB, 8, 11),
     assumptions=["branches on the binary exponent below 2^-40 and on degree>8 multivariate polynomials follow the sampled side only (counted as unforked/skipped)"])

# ---------------------------------------------------------------- relations between the algorithms
prop("C05", "n<=4 lower/upper boundary, n<=3 both boundaries: every boundary vector; n<=33: listed assignments to K<=2 symbolic levels",
     [R("h_agree", n=n, mode=m) for m in (0, 1) for n in (0, 1, 2, 3, 4)] + [R("h_agree", n=n, mode=m) for m in (2, 3) for n in (0, 1, 2) if (n, m) != (0, 3)] + [R("h_agree", n=3, mode=3)]
     + [T("h_agree", n=3, mode=2, time=900), T("h_agree", n=6, mode=0, time=900), T("h_agree", n=6, mode=1, time=900)]
     + [R("h_agree", n=n, mode=m, levels=2, pat=p) for m in (0, 1, 2) for n in (6, 10, 18) for p in (1, 2)] + [R("h_agree", n=33, mode=m, levels=1, pat=1) for m in (0, 1, 2)] + [R("h_agree", n=180, mode=m, levels=1, pat=1, wide=2, pathtime=300) for m in (0, 1)]
     + [T("h_agree", n=180, mode=2, levels=1, pat=1, wide=2, pathtime=600), T("h_agree", n=66, mode=2, levels=1, pat=1)],
     sample_alarm=False)
prop("C18", "n<=3 for every pair of boundary vectors, n<=4 one-sided; one-sided n<=6 with bounds on 2 symbolic levels, n=18 (thorough 34) on one, every assignment, two-sided n<=4 (thorough 8), selected assignments up to n=140 (non-linear real arithmetic over all boundary vectors, decided by nlsat)",
     [R("h_range", n=n, op=op, mono=m) for m in (0, 1) for op in (KS, FFT, NB, NBB, MB, MBB) for n in (1, 2)] + [R("h_range", n=3, op=op, mono=m) for m in (0, 1) for op in (NB, NBB, MB, MBB)]
     + [R("h_range", n=3, op=op, mono=0) for op in (KS, FFT)] + [T("h_range", n=3, op=op, mono=1, time=900) for op in (KS, FFT)] + [T("h_range", n=4, op=op, mono=m, time=900) for m in (0, 1) for op in (NB, MB)]
     + [R("h_range", n=n, op=op, mono=m, levels=K) for op in (NB, NBB, MB, MBB) for n, K, m in ((4, 2, 1), (5, 2, 1), (5, 2, 0), (6, 2, 1), (9, 1, 0), (18, 1, 1))]
     + [R("h_range", n=n, op=op, mono=m, levels=K) for op in (KS, FFT) for n, K, m in ((4, 1, 1), (4, 1, 0), (3, 2, 1), (3, 2, 0), (6, 1, 1))] + [R("h_range", n=n, op=op, mono=1, levels=K, pat=p) for op, n, K, p in ((KS, 8, 2, 1), (FFT, 8, 2, 1), (KS, 12, 2, 2), (FFT, 12, 2, 2), (FFT, 140, 1, 1))]
     + [T("h_range", n=n, op=op, mono=1, levels=K, time=900) for op in (NB, NBB, MB, MBB) for n, K in ((34, 1), (4, 3), (8, 2))] + [T("h_range", n=n, op=op, mono=1, levels=K, time=900) for op in (KS, FFT) for n, K in ((8, 1), (4, 2))],
     sample_alarm=False)

# ---------------------------------------------------------------- command line program
CLI = dict(main="cli", witness="")
prop("C08", "files with 0..3 numbers per line over every value (valid or not, including unequal lengths), every algorithm name plus three wrong ones, four layouts, argc 1..5, missing file, files that lack a line or hold a comment or a word",
     [R("h_cli", nb=a, nB=b, **CLI) for a, b in ((0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 0), (2, 2), (1, 2), (2, 1), (3, 0), (0, 3), (3, 1))]
     + [R("h_cli", nb=a, nB=b, any=1, **CLI) for a, b in ((0, 1), (1, 0), (1, 1), (2, 0), (0, 2), (2, 2), (1, 2), (2, 1))]
     + [R("h_cli", nb=1, nB=1, argc=k, **CLI) for k in (1, 2, 4, 5)] + [R("h_cli", nb=1, nB=1, missing=1, **CLI)] + [R("h_cli", nb=a, nB=b, bad=1, **CLI) for a, b in ((0, 1), (1, 0), (2, 2))]
     + [R("h_cli", nb=a, nB=b, levels=1, pat=1, **CLI) for a, b in ((17, 17), (17, 0), (0, 17))]
     + [T("h_cli", nb=3, nB=3, time=900, **CLI), T("h_cli", nb=3, nB=3, any=1, time=900, **CLI)],
     assumptions=["numerals in the file stand for the symbolic values (strtod by contract); stream output of a number is captured symbolically, so digit formatting is outside"])

# ---------------------------------------------------------------- building blocks
CV = dict(witness="")
prop("C09", "sequences of up to 4 calls on one convolver with sizes 0..6, 126..130, 200 (dense symbolic data) and 600..8200, one call of 20000 (data symbolic at selected indices, zero elsewhere), each pair of sizes",
     [R("h_conv", max=6, sizes="0,1,2,3,5,6", calls=3, **CV), R("h_conv", max=8, sizes="1,4,8", calls=4, square=1, **CV),
      R("h_conv", max=130, sizes="3,127,128,130", calls=2, dense=1, time=300, **CV), R("h_conv", max=200, sizes="126,200", calls=2, dense=1, square=1, **CV),
      R("h_conv", max=2050, sizes="100,1023,1024,1025,2050", calls=3, dense=0, time=300, **CV), R("h_conv", max=8200, sizes="4096,8200,600", calls=2, dense=0, time=300, **CV), R("h_conv", max=20000, sizes="20000", calls=1, dense=0, **CV), R("h_conv", max=1025, sizes="1,128,512,1024,1025", calls=2, dense=0, **CV),
      T("h_conv", max=4100, sizes="127,128,1024,1025,2048,2049,4100", calls=3, dense=0, time=1800, **CV), T("h_conv", max=200, sizes="127,128,129,200", calls=3, dense=1, time=1500, **CV)]
     + [R("h_conv", max=m, over=k, **CV) for m in (1, 5, 127, 128, 130, 1024) for k in (1, 2, 900)],
     assumptions=["FFTW obeys its documented contract (formal spectra: a c2r transform of a common bilinear form of r2c spectra yields the cyclic convolution); plans are checked for use after destroy, alignment and kind"])
prop("C11", "every intensity lambda>=0 (and every lambda<0 for rejection), k up to 12 for two consecutive calls on one generator with every second k (thorough 40), k in {40, 180, 1000} for one call",
     [R("h_pmf", k=k, calls=2, **CV) for k in (1, 2, 3, 5, 12)] + [R("h_pmf", k=k, calls=1, **CV) for k in (40, 180, 1000)] + [R("h_pmf", k=k, neg=1, **CV) for k in (1, 4)] + [T("h_pmf", k=170, calls=1, **CV), T("h_pmf", k=40, calls=2, **CV), T("h_pmf", k=10, calls=3, **CV)],
     assumptions=["exp, log and lgamma are exact: exp(a log x) = x^a, lgamma(k+1) = log k!"])
MC = dict(main="mc", witness="")


def mc(poisson, draws):
    r = [R("h_mc", nb=a, nB=b, poisson=poisson, sims=1, draws=draws, **MC) for a, b in ((1, 1), (0, 1), (1, 0), (2, 2), (0, 2), (2, 0), (2, 1), (1, 2), (3, 3))]
    r += [R("h_mc", nb=a, nB=b, poisson=poisson, sims=s, draws=12, **MC) for a, b in ((1, 1), (0, 1), (1, 0)) for s in (2, 3)] + [R("h_mc", nb=2, nB=2, poisson=poisson, sims=2, draws=8, time=60, **MC)]
    more = 1 + poisson  # a Poisson process has one point more than bounds in the longest run
    r += [R("h_mc", nb=a, nB=b, poisson=poisson, sims=1, draws=max(a, b) + more, time=200, **MC) for a, b in ((6, 6), (9, 5), (5, 9), (0, 24), (40, 0), (12, 12))]
    r += [R("h_mc", nb=a, nB=b, poisson=poisson, sims=s, draws=s * (max(a, b) + 1 - poisson) + 2 * poisson, time=200, **MC) for a, b, s in ((4, 4, 2), (0, 3, 4), (3, 0, 4))]
    r += [T("h_mc", nb=a, nB=b, poisson=poisson, sims=s, draws=s * (max(a, b) + more), time=1500, **MC) for a, b, s in ((24, 24, 1), (0, 60, 1), (60, 0, 1), (6, 6, 2), (3, 3, 4), (3, 3, 5), (17, 9, 1))]
    r += [T("h_mc", nb=2, nB=2, poisson=poisson, sims=3, draws=9, time=900, **MC), T("h_mc", nb=3, nB=3, poisson=poisson, sims=2, draws=8, time=900, **MC), T("h_mc", nb=4, nB=4, poisson=poisson, sims=1, draws=8, time=900, **MC)]
    return r


RNGA = ["the generator is replaced by its contract: every call returns an arbitrary number of its documented range (the generator itself is C14)", "time() returns a fixed value"]
prop("C12", "one simulation with up to 12 boundaries per line, or 24 (40) in one of them (thorough 24 and 60), up to 4 simulations (thorough 5) with up to 3 or 4 boundaries; every boundary value and every outcome of the random draws", mc(0, 8), assumptions=RNGA)
prop("C13", "one simulation with up to 12 boundaries per line, or 24 (40) in one of them (thorough 24 and 60), up to 4 simulations (thorough 5) with up to 3 or 4 boundaries, processes with at most one point more than boundaries per simulation on average; every boundary value and every outcome of the draws", mc(1, 6), assumptions=RNGA)

# ---------------------------------------------------------------- robustness
def safe():
    r = []
    for asan, nd in ((1, 0), (1, 1)):
        o = dict(asan=asan, ndebug=nd, variants=["ndebug-asan" if nd else "asan"], nsamples=4)
        for op in (KS, FFT):
            r += [R("h_safe", n=n, op=op, **o) for n in (0, 1, 2, 3)] + [R("h_safe", n=5, op=op, levels=2, pat=-1, **o), T("h_safe", n=4, op=op, time=900, **o), T("h_safe", n=8, op=op, levels=2, pat=-1, time=900, **o)]
            r += lv("h_safe", (8, 17), (2,), (0, 7), op=op, **o) + lv("h_safe", (64,), (1,), (1, 7), op=op, **o)
        r += lv("h_safe", (126, 127, 128, 135), (1,), (1,), op=FFT, wide=1, **o) + (lv("h_safe", (520,), (1,), (1,), op=FFT, wide=3, fix=1, pathtime=300, **o) if not nd else [])
        for op in (NB, NBB, MB, MBB):
            r += [R("h_safe", n=n, op=op, **o) for n in range(0, 8)] + [R("h_safe", n=12, op=op, levels=2, pat=-1, **o), T("h_safe", n=20, op=op, levels=2, pat=-1, time=900, **o)]
            r += lv("h_safe", (16, 17, 33), (1,), (1, 2), op=op, **o) + lv("h_safe", (65,), (1,), (1,), op=op, wide=1, **o) + lv("h_safe", (127, 128, 130), (1,), (1,), op=op, wide=2, **o)
            r += lv("h_safe", (180,), (1,), (1,), True, op=op, wide=4, **o) + (lv("h_safe", (700,), (1,), (1,), op=op, wide=3, fix=1, pathtime=300, **o) if not nd else [])
            r += lv("h_safe", (65,), (1,), (1, 2), True, op=op, **o) + lv("h_safe", (127, 128, 130), (1,), (1,), True, op=op, wide=1, **o)
            r += lv("h_safe", (150, 200, 260), (1,), (1,), True, op=op, wide=1, time=300, **o)
    return r


prop("C16", "built with AddressSanitizer, assertions on and off; two-sided n<=3 (thorough 4), one-sided n<=7: every valid boundary vector; n=5 (two-sided) and 12 (one-sided): every assignment to 2 symbolic levels; "
     "listed assignments up to n=135 (thorough 260), n=520 and 700 with constant levels", safe(), loose=float("inf"),
     technique="symbolic execution of the compiled sources (LLVM IR) with AddressSanitizer instrumentation over symbolic reals, path feasibility decided by Z3")


def hist():
    r = []
    for op in range(6):
        two = op in (KS, FFT)
        r += [R("h_history", n=n, op=op, pre=1, sizes="0,1,3,18", kinds=4) for n in ((1, 2) if two else (1, 2, 3))]
        r += [R("h_history", n=1, op=op, pre=1, mid=1, sizes="2,18", kinds=2), R("h_history", n=1, op=op, pre=2, sizes="2,18" if two else "1,3,18", kinds=2)]
        r += [R("h_history", n=18, op=op, levels=1, pat=1, pre=1, sizes="2,17,40", kinds=2), T("h_history", n=2, op=op, pre=2, sizes="1,3,18", kinds=4, time=900), T("h_history", n=1, op=op, pre=3, sizes="1,3,18", kinds=2, time=900)]
        if op in (FFT, NB, NBB):
            r += [R("h_history", n=n, op=op, levels=1, pat=1, wide=1, pre=1, sizes="2,130", kinds=1, pathtime=120) for n in (128,)]
    return r


prop("C17", "sequences of 1..3 calls (thorough 4): each earlier call is any of the six entry points with a size from a list (up to 18, or 130 for FFT sizes), valid or invalid in one of three ways; the last call (and its repetition) "
     "has every boundary vector for n<=2 (one-sided 3), or 1 symbolic level for n=18 and n=128", hist(), judge="history")

# ---------------------------------------------------------------- bit-precise
RN = dict(int=1, rng=0)
prop("C14", "every state, 32-bit mat1/mat2 and 64-bit tmat for one step (hence any number of steps), every seed, keys of 0..9 words (thorough up to 24) of every value; init_by_array reaching the all-zero state is not decided",
     [R("h_rng", mode="step", **RN), R("h_rng", mode="init", **RN), R("h_rng", mode="init", zero=1, **RN)] + [R("h_rng", mode="array", keys=k, rlimit=2000000, nlrlimit=2000000, **RN) for k in (0, 1, 2, 3, 5, 7, 8, 9)]
     + [T("h_rng", mode="array", keys=k, **RN) for k in (4, 6, 10, 15, 24)],
     base=INT, technique=INTTECH)
VW = dict(base=INT, technique=INTTECH)
prop("C06", "check_boundary_vector: every vector of IEEE doubles with n<=7 (thorough 10), declared lengths n-1..n+1; n up to 200 with one arbitrary entry at 7 positions; the six entry points: n<=3 one-sided (thorough 5), n,m<=2 "
     "two-sided (thorough 3), n up to 40 with one arbitrary entry at any position",
     [R("h_validate", op=-1, n=n, **RN) for n in range(0, 8)] + [R("h_validate", op=-1, n=n, m=m, **RN) for n, m in ((0, 1), (1, 0), (2, 1), (2, 3), (3, 4))] + [R("h_validate", op=-1, n=n, sparse=7, **RN) for n in (8, 33, 200)]
     + [R("h_validate", op=-1, n=12, sparse=12, **RN), T("h_validate", op=-1, n=10, time=900, **RN), T("h_validate", op=-1, n=1000, sparse=1000, time=900, **RN)]
     + [R("h_validate", op=op, n=n, **RN) for op in (NB, NBB, MB, MBB) for n in (0, 1, 2, 3)] + [T("h_validate", op=op, n=n, time=600, **RN) for op in (NB, NBB, MB, MBB) for n in (4, 5)]
     + [R("h_validate", op=op, n=n, m=m, **RN) for op in (KS, FFT) for n in (0, 1, 2) for m in (0, 1, 2)] + [R("h_validate", op=op, n=3, m=3, **RN) for op in (KS, FFT)]
     + [T("h_validate", op=op, n=n, m=m, time=600, **RN) for op in (KS, FFT) for n, m in ((4, 4), (3, 2), (2, 3), (4, 3))]
     + [R("h_validate", op=op, n=n, sparse=s, **RN) for op in (NB, NBB, MB, MBB) for n, s in ((20, 20), (40, 40))] + [R("h_validate", op=op, n=20, sparse=7, **RN) for op in (KS, FFT)], **VW)
LF = ("?.5?,?_?", "0.?,0.?,?.,__.?,?", "0.?25,?.5,0.?", "0.12345678901234567?", "-?.?e-?", "0.25_?_,0.5", "0x?.?p?", "0.1,0.2,0.3,0.4,0.5,0.6,0.7,0.8,0.9,0.95,?")
prop("C07", "every line of n<=5 bytes (thorough 6) of any value, NUL and non-ASCII included, with AddressSanitizer up to 3; templates with 1..5 arbitrary bytes in longer lines (up to 11 fields, long numerals, exponents, hexadecimal); every string of "
     "n<=5 bytes for one number; whole files of 0..3 and 400 numbers of any value in six layouts, one of 2000, and files that lack a line or hold a comment or a word",
     [R("h_line", n=n, **RN) for n in range(0, 6)] + [R("h_line", n=n, asan=1, variants=["asan"], **RN) for n in range(0, 4)] + [T("h_line", n=4, asan=1, variants=["asan"], time=900, **RN), T("h_line", n=6, time=2400, **RN)]
     + [R("h_line", mode="double", n=n, **RN) for n in range(0, 6)]
     + [R("h_line", text=t, **RN) for t in LF] + [R("h_line", mode="double", text=t, **RN) for t in ("1.5e??", "1e-3??", "1e30?", "_?.?_", "0x1.?p?")]
     + [R("h_file", nb=a, nB=b) for a, b in ((0, 0), (0, 1), (1, 0), (2, 1), (2, 2), (0, 3), (3, 3), (400, 300), (0, 400), (2000, 0))] + [R("h_file", nb=1, nB=1, missing=1, witness="")] + [R("h_file", nb=a, nB=b, bad=1, witness="") for a, b in ((0, 1), (1, 1), (2, 2), (40, 3))],
     **VW, assumptions=["numerals in a whole file stand for symbolic values (strtod by contract); bytes of single lines are followed one by one"])
SZ = dict(lazylen=1, fftshape=1, **RN)
prop("C10", "every declared maximum and requested size up to 1000 together, or between 128 and 8000 (thorough 50000); every request above every maximum up to 20000; two requests on one convolver up to 30 (thorough 6000), arrays of exactly the requested size",
     [R("h_size", low=0, top=1000, **SZ), R("h_size", low=128, top=8000, **SZ), R("h_size", low=0, top=20000, over=1, **SZ), R("h_size", low=0, top=30, calls=2, **SZ), R("h_size", low=128, top=1500, calls=2, **SZ),
      T("h_size", low=128, top=50000, time=1500, **SZ), T("h_size", low=128, top=6000, calls=2, time=1500, **SZ), T("h_size", low=0, top=100, calls=2, time=900, **SZ)],
     **VW, assumptions=["FFTW transforms read and write exactly the documented number of elements"])
MA = dict(main="mc", int=1, rng=1)
prop("C15", "the count: every string of 0..3 bytes (thorough 5), all-digit templates around 2^32 and 2^63; the mode: every string of 0..7 bytes; 1..6 arguments; a missing file (a count of zero is outside the claim); "
     "string_to_long: every string of up to 7 bytes and templates around the range limits",
     [R("h_mcargs", n=n, **MA) for n in range(0, 4)] + [R("h_mcargs", arg=1, n=n, witness="", **MA) for n in (0, 1, 4, 7)] + [R("h_mcargs", text="2", argc=k, **MA) for k in (1, 2, 3, 5, 6)]
     + [R("h_mcargs", text="2?", draws=80, **MA), R("h_mcargs", text="20?", draws=500, **MA), R("h_mcargs", text="429496729?", **MA), R("h_mcargs", text="1844674407370955161?", **MA), R("h_mcargs", text="922337203685477580?", **MA),
        R("h_mcargs", mode="poisson", n=1, **MA), R("h_mcargs", missing=1, text="2", **MA), R("h_mcargs", text="_?", **MA), R("h_mcargs", text="1?0", draws=400, **MA), R("h_mcargs", text="0x?", **MA),
        T("h_mcargs", n=4, time=900, **MA), T("h_mcargs", n=5, time=1800, **MA)]
     + [R("h_line", mode="long", n=n, **RN) for n in range(0, 7)] + [R("h_line", mode="long", text=t, **RN) for t in ("922337203685477???", "-922337203685477580?", "1844674407370955161?", "429496729?", "_?7_?")] + [T("h_line", mode="long", n=7, time=900, **RN)],
     **VW, assumptions=["the generator is replaced by a constant in its range: the number of draws tells the number of simulations"])


def pyruns(main, short):
    o = dict(main=main, nsamples=6, variants=["gen" if main == "pygen" else "plain"])
    r = []
    for op in range(6):
        two = op in (KS, FFT)
        r += [R("h_python", op=op, n=n, any=1, kinds=3, **o) for n in ((0, 1, 2) if two else (0, 1, 2, 3))]
        r += [R("h_python", op=op, n=n, any=1, odd=1, kinds=3, **o) for n in (1, 2)] + [R("h_python", op=op, n=1, any=1, misuse=m, kinds=3, **o) for m in range(1, 7)]
        if not short:
            r += [R("h_python", op=op, n=3, kinds=3, **o), T("h_python", op=op, n=3, any=1, odd=1, kinds=3, time=300, **o)] + [R("h_python", op=op, n=n, levels=1, pat=1, kinds=3, **o) for n in (18, 33)]
            r += [T("h_python", op=op, n=n, any=1, kinds=3, time=600, **o) for n in ((3,) if two else (4, 5))]
    r += [R("h_python", op=op, n=n, m=m, any=1, kinds=3, **o) for op in (KS, FFT) for n, m in ((2, 1), (1, 2), (0, 1), (1, 0))]
    return r


def pyasan():
    r = []
    for op in range(6):
        o = dict(main="py", asan=1, variants=["asan"], nsamples=2, op=op)
        r += [R("h_python", n=n, any=1, kinds=3, **o) for n in ((1, 2) if op in (KS, FFT) else (1, 3))] + [R("h_python", n=1, any=1, odd=1, kinds=3, **o), R("h_python", n=1, any=1, misuse=3, kinds=3, **o)]
    return r


prop("C19", "lists, tuples and VectorDouble of 0..3 numbers (two-sided 0..2, thorough 3) of every value, valid or not, unequal lengths; one element at any position replaced by an int, NaN, infinity, None or a string; "
     "six kinds of wrong arguments; n=18 and n=33 with one symbolic level; the committed wrapper (also with AddressSanitizer) and the one generated by SWIG from src/crossprob.i",
     pyruns("py", False) + pyruns("pygen", True) + pyasan(),
     assumptions=["the interpreter is the real CPython 3.12, run natively on each symbolic path; numbers travel through its float objects unchanged"])


def leaks():
    r = []
    for op in range(6):
        two = op in (KS, FFT)
        r += [R("h_leak", op=op, n=n) for n in ((0, 1, 2, 3) if two else range(0, 7))] + [R("h_leak", op=op, n=n, any=1, witness="refused") for n in (1, 2)]
        r += lv("h_leak", (18, 33), (1,), (1,), op=op) + [T("h_leak", op=op, n=n, time=900) for n in ((4,) if two else (8, 9))]
        if two:
            r += [R("h_leak", op=op, n=n, m=m, any=1, witness="refused") for n, m in ((2, 1), (1, 2))]
        if op in (FFT, NB, NBB):
            r += [R("h_leak", op=op, n=130, levels=1, pat=1, wide=1)]
    return r + [R("h_leak", op=op) for op in (6, 7, 8, 9)]


prop("C21", "the six entry points: n<=3 two-sided (thorough 4), n<=6 one-sided (thorough 9), every boundary vector, valid or not (n<=2); n=18, 33 and 130 (FFT sizes) with one symbolic level; life cycles of the convolver and the Poisson "
     "generator for sizes up to 2049 (requests above the maximum included); boundary files and lines, well-formed or not; each call three times", leaks())


def cost(op, n, r, w, v, g=1, mk=R, **k):
    return mk("h_cost", op=op, n=n, r=r, w=w, v=v, g=g, concretize=1, nsamples=1, pathtime=400, **dict(dict(validate=False), **k))


def costs():
    q = [cost(FFT, 512, 4, 2, 2, time=300), cost(FFT, 512, 8, 17, 0, lim=60, validate=True), cost(FFT, 512, 8, 5, 17, lim=60), cost(FFT, 512, 8, 8, 17, 16, lim=60), cost(FFT, 1024, 4, 1, 20000, time=300)]
    q += [cost(KS, 96, 4, 2, 2), cost(KS, 96, 4, 17, 0, validate=True), cost(KS, 96, 4, 5, 17), cost(KS, 96, 4, 3000, 3000)]
    for op, n in ((NB, 128), (NBB, 128), (MB, 64), (MBB, 64)):
        q += [cost(op, n, 8, w, w, g, validate=op in (NB, NBB) and w == 12) for w, g in ((0, 1), (2, 1), (12, 1), (2, 16), (3000, 1))]
        q.append(cost(op, 4 * n, 8, 2, 2))
    q += [cost(FFT, 512, 8, w, v, g, mk=T, time=900) for w, v, g in ((2, 2, 1), (4, 4, 8), (1, 3, 2), (0, 8, 1))]
    q += [cost(FFT, 2048, 4, 17, 2, mk=T, time=900), cost(KS, 192, 4, 4, 4, mk=T, time=900)]
    return q + [cost(op, 1024, 8, 1, 1, mk=T, time=900) for op in (NB, NBB, MB, MBB)]


prop("C22", "from 512 to 2048 and 4096 bounds (FFT), 96 to 384 (direct two-sided), 128 to 1024 and 512 to 4096 (new one-sided), 64 to 512 and 256 to 2048 (polynomial one-sided); thorough two to four times as many: "
     "boundaries at listed distances below and above the diagonal (a share of n, or constant), single or in groups of equal bounds, every shift of each by up to 1/n", costs(), sample_alarm=False,
     assumptions=["work = instructions of the unoptimised code, an eighth of the bytes copied or filled, 3 N log2 N per transform of N; comparisons, sums and differences of bounds are followed symbolically, "
                  "products with their value at the path's sample, so a branch on a product is taken as at the sample"])
