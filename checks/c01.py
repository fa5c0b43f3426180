from .common import *
ID = "C01"
BOUNDS = "every even shape up to 6x8 (quick) / 10x12 (thorough) with arbitrary real or integer pixels, odd shapes up to 7x7 rejected; number types float64, float32, uint8, uint16, int16, int32"


def roundtrip(env, h, w, dtype):
    np = env.np
    lo, hi = (0, 255) if dtype == "uint8" else (0, 65535) if dtype == "uint16" else (-30000, 30000)
    a = env.pixels("a", (h, w), dtype, lo, hi)
    before = a.copy()
    d = env.mod("processing.demosaic")
    s = d.split_polarizations(a)
    env.equal("split places every pixel", s, np.array([fam(before, k) for k in range(4)]), tol=0)
    env.equal("input unchanged", a, before, tol=0)
    env.equal("merge inverts split", d.merge_polarizations(s), before, tol=0)
    im = env.ml.MicropolImage(a)
    env.equal("image single polarizations", im.single_pol_subimages, np.array([fam(before, k) for k in range(4)]), tol=0)


def merge_first(env, h, w, dtype):
    np = env.np
    lo, hi = (0, 65535) if dtype == "uint16" else (-30000, 30000)
    s = env.pixels("s", (4, h, w), dtype, lo, hi)
    before = s.copy()
    d = env.mod("processing.demosaic")
    for nm, arg in (("array", s), ("list", [s[0], s[1], s[2], s[3]])):
        m = d.merge_polarizations(arg)
        env.check(f"merged shape ({nm})", tuple(m.shape) == (2 * h, 2 * w), f"{m.shape}")
        env.equal(f"merge places every pixel ({nm})", m, put(env, (2 * h, 2 * w), lambda y, x: before[2 * (y % 2) + x % 2, y // 2, x // 2], dtype), tol=0)
        env.equal(f"split inverts merge ({nm})", d.split_polarizations(m), before, tol=0)
    env.equal("inputs unchanged", s, before, tol=0)


def odd(env, h, w):
    a = env.reals("a", (h, w))
    env.raises("odd sides are rejected by split", lambda: env.mod("processing.demosaic").split_polarizations(a))


def setter(env, h, w):
    """Writing the four sub-images back through the image keeps the bijection."""
    np = env.np
    a = env.reals("a", (h, w))
    im = env.ml.MicropolImage(a)
    s = env.reals("s", (4, h // 2, w // 2))
    before = s.copy()
    im.single_pol_subimages = s
    env.equal("assigned sub-images are merged", im.data, put(env, (h, w), lambda y, x: before[2 * (y % 2) + x % 2, y // 2, x // 2]), tol=0)


def cases(tier):
    H, W = (6, 8) if tier == "quick" else (10, 12)
    for h in range(2, H + 1, 2):
        for w in range(2, W + 1, 2): yield Case(f"split {h}x{w}", roundtrip, h=h, w=w, dtype="float64")
    for dt in ("float32", "uint8", "uint16", "int16", "int32"): yield Case(f"split 4x6 {dt}", roundtrip, h=4, w=6, dtype=dt)
    for h, w in ((1, 1), (1, 3), (2, 1), (2, 3), (3, 2)) + (((4, 5), (5, 3)) if tier != "quick" else ()): yield Case(f"merge {h}x{w}", merge_first, h=h, w=w, dtype="float64")
    yield Case("merge 2x3 uint16", merge_first, h=2, w=3, dtype="uint16")
    for h, w in ((1, 1), (1, 2), (2, 1), (3, 4), (4, 3), (5, 5), (3, 6)): yield Case(f"odd {h}x{w}", odd, h=h, w=w)
