from .common import *
from .c14 import inside
ID = "C15"
BOUNDS = "images of 4x4 to 6x6 (thorough 8x6) pixels, plain, demosaiced (both methods) and demodulated, occulter centers at every pixel, arbitrary real radius and over-occultation with sum between 0 and 8 pixels, arbitrary fill and pixel values, float64/uint16/int16; camera masks on 4x4 to 6x8 sensors; sums within 1e-6 of an irrational pixel distance are left out"


def radius(env):
    r, o = env.real("radius", 0, 8), env.real("overoccult", -4, 4)
    env.assume(env.le(0, r + o))
    return r, o, r + o


def want_data(env, a, c, total, fill, rmax=10 ** 6):
    """The occulter disc taken out in whole superpixels (decision on the half-size grid)."""
    h, w = a.shape
    m = inside(env, h // 2, w // 2, [int(q / 2) for q in c], [env.trunc(env.div(total, 2)), rmax if isinstance(rmax, int) and rmax == 10 ** 6 else env.trunc(env.div(rmax, 2))], [0, 360])
    return put(env, (h, w), lambda y, x: env.ite(m[y // 2, x // 2], val(env, a[y, x]), fill)), m


def masked(env, h, w, dtype, state, cs, dic):
    a = env.pixels("a", (h, w), dtype, 0, 200)
    c = env.choose("center", cs)
    fill = env.real("fill", -50, 50)
    r, o, total = radius(env)
    im = env.ml.MicropolImage(a, angle_dic=dict(dic))
    if state in ("mean", "adjacent"): im.demosaic(state)
    if state == "demodulated":
        m = env.reals("m", (3, 4, h // 2, w // 2), -2, 2)
        im = im.demodulate(demodulator(env, m))
    if isinstance(state, tuple): im = past(env, im, state)
    src = im.data.copy()
    old = [getattr(im, n).data.copy() for n in "IQU"]
    demo = None if im.demosaiced_images is None else [d.copy() for d in im.demosaiced_images]
    before = env.snap(a)
    im.mask_occulter(c[0], c[1], r, o, fill)
    want, m = want_data(env, src, c, total, fill)
    env.equal("data", im.data, want)
    if demo is None:
        env.check("no demosaiced images", im.demosaiced_images is None)
        k = lambda y, x: m[y, x]
    else:
        env.check("four demosaiced images", len(im.demosaiced_images) == 4)
        for n in range(4): env.equal(f"demosaiced image {n}", im.demosaiced_images[n], want_data(env, demo[n], c, total, fill)[0])
        full = inside(env, h, w, c, [total, 10 ** 6], [0, 360])
        k = lambda y, x: full[y, x]
    for n, s in zip("IQU", old): env.equal(n, getattr(im, n).data, put(env, s.shape, lambda y, x: env.ite(k(y, x), val(env, s[y, x]), fill)))
    env.check("size", (im.height, im.width) == (h, w) and im.header["NAXIS1"] == w and im.header["NAXIS2"] == h)
    env.same("the array the image was made from", before, a)


def keywords(env):
    """Over-occultation and fill left out mean 0."""
    a = env.reals("a", (4, 6))
    r = env.real("radius", 0, 8)
    im, im2 = env.ml.MicropolImage(a), env.ml.MicropolImage(a)
    im.mask_occulter(3, 2, r)
    want, m = want_data(env, a, (3, 2), r, 0)
    env.equal("data", im.data, want)
    for n, s in zip("IQU", spec_stokes(env, a, im.angle_dic)): env.equal(n, getattr(im, n).data, put(env, s.shape, lambda y, x: env.ite(m[y, x], s[y, x], 0)))
    o = env.int("overoccult", 0, 5)
    im2.mask_occulter(r=r, x=2, y=3, overoccult=o)
    env.equal("by keyword", im2.data, want_data(env, a, (3, 2), r + o, 0)[0])


def camera_region(env, h, w, dtype, cs):
    cam = env.ml.cameras.PolarCam()
    c = env.choose("center", cs)
    r, o, total = radius(env)
    cam.h_image, cam.w_image, cam.occulter_pos_last = h, w, [c[0], c[1], r]
    a = env.pixels("a", (h, w), dtype, 0, 200)
    fill = env.real("fill", -50, 50)
    want, m = want_data(env, a, c, total, fill)
    env.equal("region", cam.occulter_roi(a, fill, o), want)
    env.equal("region, default fill", cam.occulter_roi(a, overoccult=o), want_data(env, a, c, total, 0)[0])
    env.equal("region, default over-occultation", cam.occulter_roi(a, fill), want_data(env, a, c, r, fill)[0])
    rmax = env.real("rmax", 0, 12)
    ones = put(env, (h, w), lambda y, x: 1.0)
    mask = lambda R, top: put(env, (h, w), (lambda q: lambda y, x: q[y // 2, x // 2])(want_data(env, ones, c, R, 0, top)[1]), bool)
    env.equal("mask", cam.occulter_mask(o, rmax), mask(total, rmax), dtype=bool)
    env.equal("mask, default over-occultation", cam.occulter_mask(rmax=rmax), mask(r, rmax), dtype=bool)
    if c[0] <= h - c[0] and c[1] <= w - c[1]: env.equal("mask out to the nearest border", cam.occulter_mask(o), mask(total, min(c)), dtype=bool)


def cases(tier):
    grid = lambda h, w: [(y, x) for y in range(h) for x in range(w)]
    deep = tier != "quick"
    yield Case("fresh 4x4", masked, h=4, w=4, dtype="float64", state="", cs=grid(4, 4), dic=DEFAULT)
    yield Case("fresh 4x6", masked, h=4, w=6, dtype="uint16", state="", cs=grid(4, 6) if deep else [(1, 2), (3, 5), (2, 3)], dic=ALL_DICS[11])
    yield Case("fresh 6x6", masked, h=6, w=6, dtype="int16", state="", cs=grid(6, 6) if deep else [(3, 3)], dic=ALL_DICS[5])
    for mode in ("mean", "adjacent"):
        yield Case(f"demosaiced {mode} 4x4", masked, h=4, w=4, dtype="float64", state=mode, cs=grid(4, 4), dic=ALL_DICS[17])
        yield Case(f"demosaiced {mode} 6x4", masked, h=6, w=4, dtype="uint16", state=mode, cs=grid(6, 4) if deep else [(2, 1), (3, 2)], dic=ALL_DICS[8])
    yield Case("demodulated 4x4", masked, h=4, w=4, dtype="float64", state="demodulated", cs=grid(4, 4) if deep else [(1, 1), (2, 3), (2, 2)], dic=ALL_DICS[2])
    for n, p in enumerate(histories(tier)): yield Case("after " + ", ".join(p), masked, h=4, w=4, dtype="float64", state=p, cs=[(1, 2)] if n % 2 else [(2, 2)], dic=ALL_DICS[5 * n % 24])
    if deep: yield Case("fresh 8x6", masked, h=8, w=6, dtype="float64", state="", cs=grid(8, 6), dic=DEFAULT)
    for st in ("", "mean"): yield Case(f"far corner 8x8 {st or 'fresh'}", masked, h=8, w=8, dtype="float64", state=st, cs=[(0, 0), (7, 7)], dic=DEFAULT)
    yield Case("keywords", keywords)
    yield Case("camera 4x4", camera_region, h=4, w=4, dtype="float64", cs=grid(4, 4))
    yield Case("camera 4x6", camera_region, h=4, w=6, dtype="uint16", cs=[(2, 3), (1, 4), (3, 0)])
    yield Case("camera 6x4", camera_region, h=6, w=4, dtype="float64", cs=grid(6, 4) if deep else [(2, 1), (3, 2), (5, 3)])
    if deep: yield Case("camera 6x8", camera_region, h=6, w=8, dtype="float64", cs=grid(6, 8))
