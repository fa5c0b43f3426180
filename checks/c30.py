from .common import *
ID = "C30"
BOUNDS = "images of 2x2 to 6x8 pixels (quick) / 10x10 (thorough) with arbitrary positive values stored as float64, float32 or integers, arbitrary thresholds (also none, integers and negative ones), arbitrary maps of 0, 1 and other numbers, all cameras' orientations, and images and maps with earlier operations"


def window(a, y, x):
    """The 2x2 pixels of the family that end at y, x (mirrored at the border)."""
    return [a[max(j, 0), max(i, 0)] for j in (y - 1, y) for i in (x - 1, x)]


def filtered(env, a):
    """Median-filtered families, back in their places."""
    def g(y, x):
        f = fam(a, 2 * (y % 2) + x % 2)
        v = env.sort([val(env, p) for p in window(f, y // 2, x // 2)])
        return v[2]
    return put(env, a.shape, g)


def spec_map(env, a, b, t):
    def hot(y, x):
        s, m = val(env, a[y, x]), b[y, x]
        return env.ite(env.lt(t * (s + m), s - m), 1.0, 0.0)   # contrast, both sides times the positive sum
    return put(env, a.shape, hot)


def spec_clean(env, a, b, m): return put(env, a.shape, lambda y, x: env.ite(env.eq(val(env, m[y, x]), 1), b[y, x], val(env, a[y, x])))


def pixels(env, n, h, w, dtype): return env.pixels(n, (h, w), dtype, 1, 255 if dtype == "uint8" else 60000 if dtype == "uint16" else 1000)


def flagging(env, h, w, dtype, threshold, dic=None, copied=False):
    a = pixels(env, "a", h, w, dtype)
    im = env.ml.MicropolImage(a, **({} if dic is None else dict(angle_dic=dict(ALL_DICS[dic]))))
    get = env.mod("processing.image_cleaning").get_hot_pixels
    t = env.real("t", -2, 2) if threshold == "any" else 100 if threshold is None else threshold
    before = env.snap(a, observe(im))
    r = get(im) if threshold is None else get(im, t)
    env.equal("map", r.data, spec_map(env, a, filtered(env, a), t), tol=0)
    env.same("image", before, a, observe(im))
    env.check("new image", r is not im)
    env.noalias("map and image", r.data, im.data)


def limit(env, dtype):
    """Contrast exactly at the threshold is not flagged, contrast just above it is."""
    a = put(env, (2, 4), lambda y, x: (1, 1, 3, 3)[x], dtype)      # second superpixel: filtered value 3
    s = put(env, (4, 4), lambda y, x: 3 if y > 1 and x > 1 else 1, dtype)
    get = env.mod("processing.image_cleaning").get_hot_pixels
    for n, arr in (("2x4", a), ("4x4", s)):
        for t in (0.5, 0.4999, 0.0, -0.5, 0.25):
            r = get(env.ml.MicropolImage(arr), t)
            env.equal(f"{n}, threshold {t}", r.data, spec_map(env, arr, filtered(env, arr), t), tol=0)


def cleaning(env, h, w, dtype, flags, hist=(), maphist=(), dic=None):
    a = pixels(env, "a", h, w, dtype)
    im = env.ml.MicropolImage(a, **({} if dic is None else dict(angle_dic=dict(ALL_DICS[dic]))))
    im = past(env, im, hist)
    if flags == "hot": m = put(env, (h, w), lambda y, x: env.ite(env.bool(f"m{y},{x}"), 1.0, 0.0))
    elif flags == "ints": m = env.ints("m", (h, w), -1, 2, "int64")
    elif flags == "uint8": m = env.pixels("m", (h, w), "uint8", 0, 255)
    elif flags == "reals": m = env.reals("m", (h, w), 0, 2)
    fm = past(env, env.ml.MicropolImage(m), maphist)
    cur = put(env, (h, w), lambda y, x: val(env, im.data[y, x]))
    b = filtered(env, cur)
    want = spec_clean(env, cur, b, fm.data)
    before = env.snap(a, observe(im), observe(fm))
    r = im.clean_hot_pixels(fm)
    tol = 1e-5 if dtype == "float32" else 1e-6
    env.equal("cleaned", r.data, want, tol=tol if hist else 0)
    consistent(env, "cleaned", r, mode_of(hist))
    env.same("image and map", before, a, observe(im), observe(fm))
    env.check("new image", r is not im)
    env.noalias("cleaned and original", r.data, im.data)
    env.check("orientations", r.angle_dic == im.angle_dic)


def pipeline(env, h, w, t):
    """The map of an image cleans that image."""
    a = pixels(env, "a", h, w, "float64")
    im = env.ml.MicropolImage(a)
    m = env.mod("processing.image_cleaning").get_hot_pixels(im, t)
    r = im.clean_hot_pixels(m)
    b = filtered(env, a)
    env.equal("cleaned", r.data, spec_clean(env, a, b, spec_map(env, a, b, t)), tol=0)
    consistent(env, "cleaned", r)


def cases(tier):
    q = tier == "quick"
    for h, w in [(2, 2), (2, 4), (4, 2), (4, 4), (4, 6), (6, 4)] + ([] if q else [(6, 8), (8, 8), (10, 10)]):
        yield Case(f"map {h}x{w}", flagging, h=h, w=w, dtype="float64", threshold="any")
        for f in ("hot", "reals"): yield Case(f"cleaning {h}x{w}, {f}", cleaning, h=h, w=w, dtype="float64", flags=f)
    for n, dt in enumerate(("float32", "uint8", "uint16", "int32", "int64")):
        yield Case(f"map of {dt}", flagging, h=4, w=4, dtype=dt, threshold=(0.125, 0.25, 0.5, 0.125, 0.0)[n])
        yield Case(f"cleaning of {dt}", cleaning, h=4, w=4, dtype=dt, flags=("ints", "uint8", "hot")[n % 3])
    for t in (None, 0, 1, -1, 0.5, -0.25): yield Case(f"map, threshold {t}", flagging, h=4, w=4, dtype="float64", threshold=t)
    for dt in ("float64", "int64", "uint16"): yield Case(f"limit {dt}", limit, dtype=dt)
    for d in (0, 5, 11, 17, 23) if q else range(24):
        yield Case(f"map, orientations {d}", flagging, h=4, w=4, dtype="float64", threshold=0.5, dic=d)
        yield Case(f"cleaning, orientations {d}", cleaning, h=4, w=4, dtype="float64", flags="hot", dic=d)
    for hi in histories(tier): yield Case(f"cleaning after {'+'.join(hi)}", cleaning, h=4, w=4, dtype="float64", flags="hot", hist=hi)
    for hi in (("copy",), ("demosaic",), ("demod",)): yield Case(f"map with {'+'.join(hi)}", cleaning, h=4, w=4, dtype="float64", flags="hot", maphist=hi)
    for t in (0.25, 0.5): yield Case(f"map and cleaning {t}", pipeline, h=4, w=4, t=t)
