from .common import *
ID = "C11"
BOUNDS = "trimming: every height and width from 0 to 1000000, binning 1 to 7 (thorough: 12; for superpixel binning above 4, thorough 7, one side at a time); block sums: every image size up to 9x9 that holds a block, binning 1 to 4 (thorough: 14x14 and 7), arbitrary pixels in float64, uint8, uint16, int16"


def trim(env, func, n, m, side=None):
    h, w = [env.int(s, 0, 1000000) if side in (None, s) else 3 * m + m // 2 + 1 for s in ("h", "w")]
    R = env.mod("processing.rebin")
    a, b = getattr(R, func)(h, w, n)
    for s, x, o in (("height", a, h), ("width", b, w)):
        env.check(f"{s}: a multiple of {m}", env.eq(x % m, 0))
        env.check(f"{s}: not above the side", env.and_(env.le(0, x), env.le(x, o)))
        env.check(f"{s}: the largest such", env.lt(o, x + m))


def blocks(env, a, n):
    h, w = a.shape
    return put(env, (h // n, w // n), lambda y, x: env.sum([val(env, a[n * y + p, n * x + q]) for p in range(n) for q in range(n)]))


def rebin(env, h, w, n, dtype):
    a = env.pixels("a", (h, w), dtype, 0 if dtype.startswith("u") else -200, 200)
    im = env.ml.Image(a)
    r = im.rebin(n)
    want = blocks(env, a, n)
    env.equal("block sums", r.data, want)
    env.check("header states the size", r.header["NAXIS1"] == w // n and r.header["NAXIS2"] == h // n)
    env.equal("standard_rebin", env.mod("processing.rebin").standard_rebin(put(env, (h, w), lambda y, x: val(env, a[y, x])), n), want)


def public_trim(env, n):
    """The trimming offered at the top of the package."""
    h, w = env.int("h", 1, 1000000), env.int("w", 1, 1000000)
    a, b = env.ml.trim_to_match_binning(h, w, n, verbose=False)
    env.check("largest multiple", env.and_(env.eq(a % n, 0), env.le(a, h), env.lt(h, a + n), env.eq(b % n, 0), env.le(b, w), env.lt(w, b + n)))


def cases(tier):
    q = tier == "quick"
    for n in range(1, 8 if q else 13):
        yield Case(f"trim for plain binning {n}", trim, func="trim_to_match_binning", n=n, m=n)
        for side in (None,) if n < (5 if q else 8) else ("h", "w"): yield Case(f"trim for superpixel binning {n} {side or ''}", trim, func="trim_to_match_2xbinning", n=n, m=2 * n, side=side, _cost=n)
        yield Case(f"public trim {n}", public_trim, n=n)
    for h, w, n in ((6, 6, 6), (7, 13, 6), (14, 7, 7), (9, 17, 8)) + (() if q else ((24, 11, 11), (12, 25, 12))): yield Case(f"{h}x{w} by {n}", rebin, h=h, w=w, n=n, dtype="uint16")
    k = 0
    for n in range(1, 5 if q else 8):
        for h in range(n, 10 if q else 15):
            for w in range(n, 10 if q else 15):
                k += 1
                if q and (h + 2 * w) % 3 and (n == 1 or max(h, w) > 6): continue
                yield Case(f"{h}x{w} by {n}", rebin, h=h, w=w, n=n, dtype=("float64", "uint16", "uint8", "int16")[k % 4])
