from fractions import Fraction
from .common import *
ID = "C32"
BOUNDS = "mosaics of 2x2 to 8x6 pixels and plain arrays of 1x1 to 5x4 (1 to 3 dimensions) with arbitrary values stored as float64, float32 or integers, resized to 1 to 10 pixels per side (quick) / 24 (thorough), odd and even, also after earlier operations, all cameras' orientations"


HS = ("demosaic", "demosaic_mean", "demod_full", "demod", "demosaic")


def place(n, new):
    """For every new place: (left pixel, weight of its right neighbour)."""
    out = []
    for k in range(new):
        t = Fraction(k * (n - 1), new - 1) if new > 1 else Fraction(0)
        i = min(int(t), max(n - 2, 0))
        out.append((i, float(t - i) if n > 1 else 0.0))
    return out


def resized(env, a, h, w):
    py, px = place(a.shape[0], h), place(a.shape[1], w)
    v = lambda y, x: val(env, a[min(y, a.shape[0] - 1), min(x, a.shape[1] - 1)])

    def g(y, x):
        (i, s), (j, t) = py[y], px[x]
        return v(i, j) * (1 - s) * (1 - t) + v(i, j + 1) * (1 - s) * t + v(i + 1, j) * s * (1 - t) + v(i + 1, j + 1) * s * t
    return put(env, (h, w), g)


def mosaic(env, a, h, w):
    fs = [resized(env, fam(a, k), h // 2, w // 2) for k in range(4)]
    return put(env, (h, w), lambda y, x: fs[2 * (y % 2) + x % 2][y // 2, x // 2])


def image(env, h, w, nh, nw, dtype="float64", hist=(), dic=None):
    a = env.pixels("a", (h, w), dtype, *((0, 255) if dtype == "uint8" else (0, 60000) if dtype == "uint16" else (-1000, 1000)))
    im = past(env, env.ml.MicropolImage(a, **({} if dic is None else dict(angle_dic=dict(ALL_DICS[dic])))), hist)
    cur = put(env, (h, w), lambda y, x: val(env, im.data[y, x]))
    stokes = [put(env, s.shape, lambda y, x: val(env, s[y, x])) for s in (getattr(im, n).data for n in "IQU")]
    dem = im.demosaiced_images
    if dem is not None: dem = [put(env, d.shape, lambda y, x: val(env, d[y, x])) for d in dem]
    before = env.snap(a, observe(im))
    r = im.congrid(nh, nw)
    H, W = nh - nh % 2, nw - nw % 2
    tol = 1e-4 if dtype == "float32" else 1e-6
    env.equal("data", r.data, mosaic(env, cur, H, W), tol=tol)
    full = dem is not None
    for n, s in zip("IQU", stokes): env.equal(f"Stokes {n}", getattr(r, n).data, resized(env, s, *((H, W) if full else (H // 2, W // 2))), tol=tol)
    if full:
        for k in range(4): env.equal(f"demosaiced image {k}", r.demosaiced_images[k], resized(env, dem[k], H, W), tol=tol)
    else: env.check("not demosaiced", r.demosaiced_images is None)
    env.check("sizes", r.height == H and r.width == W and r.header["NAXIS1"] == W and r.header["NAXIS2"] == H)
    env.check("orientations", r.angle_dic == im.angle_dic)
    env.same("original", before, a, observe(im))
    env.check("new image", r is not im)
    env.noalias("resized and original", r.data, im.data)


def within(env, h, w, nh, nw):
    """Same size: same image; constant and linear families stay so; no value leaves its family's range."""
    a = env.reals("a", (h, w), -1000, 1000)
    env.equal("same size", env.ml.MicropolImage(a).congrid(h, w).data, a)
    r = env.ml.MicropolImage(a).congrid(nh, nw).data
    for k in range(4):
        f, g = fam(a, k), fam(r, k)
        xs = [val(env, f[y, x]) for y in range(f.shape[0]) for x in range(f.shape[1])]
        for y in range(g.shape[0]):
            for x in range(g.shape[1]):
                q = val(env, g[y, x])
                env.check(f"family {k}, {y},{x}: within its range", env.and_(env.or_(*[env.le(p, q + 1e-6) for p in xs]), env.or_(*[env.le(q - 1e-6, p) for p in xs])))
        for (y, x), (v, u) in (((0, 0), (0, 0)), ((0, -1), (0, -1)), ((-1, 0), (-1, 0)), ((-1, -1), (-1, -1))):
            if g.shape[0] > 1 and g.shape[1] > 1: env.equal(f"family {k}: corner {y},{x}", put(env, (1,), lambda i: val(env, g[y % g.shape[0], x % g.shape[1]])), put(env, (1,), lambda i: val(env, f[v % f.shape[0], u % f.shape[1]])))
    c = [[env.real(f"c{k}{n}", -50, 50) for n in range(3)] for k in range(4)]
    plane = put(env, (h, w), lambda y, x: c[2 * (y % 2) + x % 2][0] + c[2 * (y % 2) + x % 2][1] * (y // 2) + c[2 * (y % 2) + x % 2][2] * (x // 2))
    got = env.ml.MicropolImage(plane).congrid(nh, nw).data
    sy, sx = ((n // 2 - 1) / (m // 2 - 1) if m > 3 else 0 for n, m in ((h, nh), (w, nw)))
    env.equal("plane", got, put(env, (nh - nh % 2, nw - nw % 2), lambda y, x: c[2 * (y % 2) + x % 2][0] + c[2 * (y % 2) + x % 2][1] * (y // 2) * sy + c[2 * (y % 2) + x % 2][2] * (x // 2) * sx))


def plain(env, h, w, nh, nw, dtype="float64"):
    a = env.pixels("a", (h, w), dtype, *((0, 255) if dtype.startswith("u") else (-1000, 1000)))
    f = env.mod("processing.congrid").congrid
    before = env.snap(a)
    for form in ((nh, nw), [nh, nw]): env.equal(f"{form}", f(a, form), resized(env, a, nh, nw), tol=1e-4 if dtype == "float32" else 1e-6)
    env.same("input", before, a)


def line(env, n, new):
    a = env.reals("a", (n,), -1000, 1000)
    p = place(n, new)
    env.equal("line", env.mod("processing.congrid").congrid(a, (new,)), put(env, (new,), lambda k: val(env, a[p[k][0]]) * (1 - p[k][1]) + val(env, a[min(p[k][0] + 1, n - 1)]) * p[k][1]))


def cases(tier):
    q = tier == "quick"
    for h, w in ((2, 2), (4, 4), (4, 6), (6, 4)) + (() if q else ((6, 8), (8, 6))):
        for nh, nw in ((2, 2), (4, 4), (4, 6), (6, 10), (8, 2), (10, 8)) + (() if q else ((12, 16), (24, 6), (14, 22))): yield Case(f"{h}x{w} to {nh}x{nw}", image, h=h, w=w, nh=nh, nw=nw)
    for nh, nw in ((5, 6), (6, 5), (7, 9), (3, 2), (3, 3), (9, 4)): yield Case(f"4x6 to {nh}x{nw}", image, h=4, w=6, nh=nh, nw=nw)
    for k, (nh, nw) in enumerate(((5, 6), (6, 5), (3, 7), (7, 4), (9, 4))): yield Case(f"4x4 to {nh}x{nw} after {HS[k]}", image, h=4, w=4, nh=nh, nw=nw, hist=(HS[k],))
    for k, dt in enumerate(("float32", "uint8", "uint16", "int16", "int32", "int64")): yield Case(f"of {dt}", image, h=4, w=4, nh=6, nw=(4, 10)[k % 2], dtype=dt)
    for d in (3, 8, 14, 19) if q else range(24): yield Case(f"orientations {d}", image, h=4, w=4, nh=6, nw=8, dic=d)
    for k, hi in enumerate(histories(tier)): yield Case(f"after {'+'.join(hi)}", image, h=4, w=4, nh=(6, 2, 4)[k % 3], nw=(6, 8)[k % 2], hist=hi)
    for h, w, nh, nw in ((4, 4, 6, 6), (4, 6, 10, 4), (6, 4, 4, 8), (2, 4, 4, 4), (6, 6, 4, 4)) + (() if q else ((8, 8, 12, 10), (6, 8, 20, 6))): yield Case(f"range {h}x{w} to {nh}x{nw}", within, h=h, w=w, nh=nh, nw=nw)
    for h, w, nh, nw in ((1, 1, 3, 3), (1, 3, 4, 5), (3, 1, 2, 6), (2, 3, 1, 1), (3, 4, 3, 4), (5, 4, 7, 3), (3, 3, 1, 5), (4, 5, 9, 10)): yield Case(f"plain {h}x{w} to {nh}x{nw}", plain, h=h, w=w, nh=nh, nw=nw)
    for dt in ("float32", "uint8", "int32", "uint16"): yield Case(f"plain {dt}", plain, h=3, w=3, nh=5, nw=2, dtype=dt)
    for n, new in ((1, 4), (2, 5), (5, 3), (4, 1), (6, 11)): yield Case(f"line of {n} to {new}", line, n=n, new=new)
