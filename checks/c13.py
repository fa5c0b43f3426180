from functools import reduce
from .common import *
ID = "C13"
BOUNDS = "images from 2x2 up to 6x6 (thorough 8x8) pixels, both methods, all 24 orientation assignments spread over the cases, arbitrary pixel values in float64, float32, uint8, uint16, int16, int64, range claim for arbitrary lower and upper limits"

RANGE = dict(uint8=(0, 255), uint16=(0, 65535), int16=(-32768, 32767), int64=(-10 ** 6, 10 ** 6))


def rule(env, h, w, dtype, mode, dic):
    a = env.pixels("a", (h, w), dtype, *RANGE.get(dtype, (-1000, 1000)))
    before = env.snap(a)
    spec = spec_demosaic(env, a, mode)
    d = env.mod("processing.demosaic").demosaic(a, option=mode)
    env.check("four images", len(d) == 4)
    for k in range(4): env.equal(f"demosaic() image {k}", d[k], spec[k])
    env.same("input unchanged", before, a)
    im = env.ml.MicropolImage(a, angle_dic=dict(dic))
    im.demosaic(mode)
    env.check("four images", len(im.demosaiced_images) == 4)
    for k in range(4): env.equal(f"demosaiced image {k}", im.demosaiced_images[k], spec[k])
    equal_stokes(env, "full-resolution", im, stokes_of_full(env, spec, dic))
    env.equal("data unchanged", im.data, a, tol=0)
    env.same("input unchanged", before, a)
    if mode == "mean":
        for y in range(h):
            for x in range(w):
                Y, X = y // 2 * 2, x // 2 * 2
                env.equal(f"quarters add up at {y},{x}", env.sum([val(env, im.demosaiced_images[k][y, x]) for k in range(4)]), env.div(env.sum([val(env, a[j, i]) for j in (Y, Y + 1) for i in (X, X + 1)]), 4))
    else:
        im2 = env.ml.MicropolImage(a, angle_dic=dict(dic))
        im2.demosaic()
        for k in range(4): env.equal(f"default method, image {k}", im2.demosaiced_images[k], spec[k])


def in_range(env, h, w, dtype):
    """Adjacent: nothing leaves the range of its family."""
    ap = env.pixels("a", (h, w), dtype, *RANGE.get(dtype, (-1000, 1000)))
    im = env.ml.MicropolImage(ap)
    im.demosaic("adjacent")
    for k in range(4):
        f = [val(env, v) for v in fam(ap, k).ravel()]
        lo, hi = reduce(env.min, f), reduce(env.max, f)
        for v in im.demosaiced_images[k].ravel():
            v = val(env, v)
            env.check(f"family {k} stays in range", env.and_(env.le(lo - 1e-9, v), env.le(v, hi + 1e-9)))


def again(env, h, w, first, second):
    """The last method wins, and Stokes follow it."""
    a = env.reals("a", (h, w))
    im = env.ml.MicropolImage(a)
    im.demosaic(first)
    im.demosaic(second)
    spec = spec_demosaic(env, a, second)
    for k in range(4): env.equal(f"image {k}", im.demosaiced_images[k], spec[k])
    equal_stokes(env, "Stokes", im, stokes_of_full(env, spec, im.angle_dic))
    env.equal("data", im.data, a, tol=0)


def unknown(env, option):
    a = env.reals("a", (2, 4))
    im = env.ml.MicropolImage(a)
    before = env.snap(im)
    env.raises("unknown method", lambda: im.demosaic(option))
    env.raises("unknown method", lambda: env.mod("processing.demosaic").demosaic(a, option))
    env.same("image unchanged", before, im)


def split_merge(env, h, w, dtype):
    D = env.mod("processing.demosaic")
    a = env.pixels("a", (h, w), dtype, *RANGE.get(dtype, (-1000, 1000)))
    s = D.split_polarizations(a)
    for k in range(4): env.equal(f"family {k}", s[k], fam(a, k))
    env.equal("merged back", D.merge_polarizations(s), a)
    im = env.ml.MicropolImage(a)
    for k in range(4): env.equal(f"single polarization image {k}", im.single_pol_subimages[k], fam(a, k))


def cases(tier):
    big = ((6, 6), (6, 4), (8, 8)) if tier != "quick" else ((4, 6),)
    n = 0
    for mode in ("mean", "adjacent"):
        for h, w in ((2, 2), (2, 4), (4, 2), (4, 4), (6, 2), (2, 6)) + big:
            for dt in ("float64", "float32", "uint8", "uint16", "int16", "int64") if (h, w) in ((4, 4),) or tier != "quick" and h * w <= 24 else (("float64", "uint16", "uint8")[(h + w // 2) % 3],):
                n += 1
                yield Case(f"{mode} {h}x{w} {dt}", rule, h=h, w=w, dtype=dt, mode=mode, dic=ALL_DICS[7 * n % 24])
    for h, w, dt in ((4, 4, "float64"), (4, 2, "uint8"), (2, 6, "int16")) + (((6, 6, "float64"), (4, 6, "uint16")) if tier != "quick" else ()): yield Case(f"range {h}x{w} {dt}", in_range, h=h, w=w, dtype=dt)
    for f in ("mean", "adjacent"):
        for s in ("mean", "adjacent"): yield Case(f"{f} then {s}", again, h=4, w=4, first=f, second=s)
    for name in ("bilinear", "", "Mean", None): yield Case(f"unknown method {name!r}", unknown, option=name)
    for dt in ("float64", "uint16", "uint8"): yield Case(f"split and merge {dt}", split_merge, h=4, w=6, dtype=dt)
