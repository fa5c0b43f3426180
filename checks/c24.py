from .common import *
import os
ID = "C24"
BOUNDS = "images of 2x2 to 6x8 pixels (quick) / 10x12 (thorough) with arbitrary values stored as float64, float32, uint8, uint16, int16 or int32, arbitrary 4x4 correction matrices and offsets stored as float64, float32, int16 or uint16, and images with earlier operations"


def ifov(env, a):
    h, w = a.shape
    v = lambda y, x: val(env, a[y, x])
    return put(env, (h, w), lambda y, x: 0.0 if y < 2 or x < 2 else env.div(v(y, x) + v(y - 2, x) + v(y, x - 2) + v(y - 2, x - 2), 4))


def correct(env, h, w, dtype):
    a = env.pixels("a", (h, w), dtype, *((0, 255) if dtype == "uint8" else (0, 65535) if dtype == "uint16" else (-30000, 30000)))
    want = ifov(env, a)
    im = env.ml.MicropolImage(a)
    r = im.correct_ifov()
    t = 0.02 if dtype == "float32" else 1e-6
    env.equal("corrected", r.data, want, tol=t)
    env.check("same image", r is im)
    consistent(env, "corrected", r)
    again = r.correct_ifov()
    env.equal("corrected again", again.data, ifov(env, want), tol=t)


def later(env, h, w, hist):
    """Images with a past."""
    a = env.reals("a", (h, w), 0, 1000)
    im = past(env, env.ml.MicropolImage(a), hist)
    before = env.snap(im.data)
    want = ifov(env, im.data)
    r = im.correct_ifov()
    env.equal("corrected", r.data, want)
    consistent(env, "corrected", r, mode_of(hist))


def kept(env, h, w):
    """Other images made from the same data keep theirs."""
    a = env.reals("a", (h, w), 0, 1000)
    im = env.ml.MicropolImage(a)
    other = env.ml.MicropolImage(im)
    before = env.snap(a, observe(other))
    im.correct_ifov()
    env.same("input array and copy", before, a, observe(other))


def calibrate(env, h, w, dtype, ddtype, free=None, path="cwl", cdtype="float64"):
    lo, hi = (0, 255) if dtype == "uint8" else (0, 65535) if dtype == "uint16" else (-3000, 3000)
    a = env.pixels("a", (h, w), dtype, lo, hi)
    dl, dh = (0, 60000) if ddtype == "uint16" else (-3000, 3000)
    if free == "data":
        g = lambda i, j, y, x: float((3 * i + 5 * j + 7 * (y // 2) + 2 * (x // 2) + i * j) % 9 - 4)
        c, d = put(env, (4, 4, h, w), g, cdtype), env.pixels("d", (h, w), ddtype, dl, dh)
    else:
        q = env.pixels("c", (4, 4, h // 2, w // 2), cdtype, -20, 20)
        c = put(env, (4, 4, h, w), lambda i, j, y, x: q[i, j, y // 2, x // 2], cdtype)
        d = put(env, (h, w), lambda y, x: (5 * y + 3 * x) % 7 * (1 if ddtype == "uint16" else -2), ddtype)
        a = put(env, (h, w), lambda y, x: (31 * y + 17 * x + y * x) % 200, dtype)
    os.makedirs(path, exist_ok=True)
    for i in range(4):
        for j in range(4): env.write_fits(os.path.join(path, f"C{i}{j}.fits"), c[i, j])
    env.write_fits(os.path.join(path, "d_ij.fits"), d)
    before = env.snap(a)
    r = env.mod("processing.chen_wan_liang_calibration").chen_wan_liang_calibration(a, path)
    v = lambda y, x: val(env, a[y, x]) - val(env, d[y, x])
    mid = put(env, (h, w), lambda y, x: env.sum([val(env, c[2 * (y % 2) + x % 2, k, y, x]) * v(y // 2 * 2 + k // 2, x // 2 * 2 + k % 2) for k in range(4)]))
    env.equal("calibrated", r, ifov(env, mid))
    env.same("input", before, a)


def stored_alike(env, h, w):
    """Integers or floats: the same result."""
    os.makedirs("cwl", exist_ok=True)
    for i in range(4):
        for j in range(4): env.write_fits(f"cwl/C{i}{j}.fits", put(env, (h, w), lambda y, x: float((3 * i + 5 * j + 7 * (y // 2) + 2 * (x // 2)) % 9 - 4)))
    env.write_fits("cwl/d_ij.fits", env.reals("d", (h, w), -3000, 3000))
    f = env.mod("processing.chen_wan_liang_calibration").chen_wan_liang_calibration
    a = env.ints("a", (h, w), 0, 255, "int64")
    want = f(put(env, (h, w), lambda y, x: a[y, x], "float64"), "cwl")
    for dt in ("uint8", "uint16", "int16", "int32", "int64"): env.equal(dt, f(put(env, (h, w), lambda y, x: a[y, x], dt), "cwl"), want)


def cases(tier):
    q = tier == "quick"
    for h, w in [(2, 2), (2, 4), (4, 2), (4, 4), (4, 6), (6, 4), (6, 8)] + ([] if q else [(8, 8), (10, 12), (12, 4)]):
        for dt in ("float64", "float32", "uint8", "uint16", "int16", "int32") if (h, w) in ((4, 4), (4, 6)) else ("float64", "uint16"): yield Case(f"field of view {h}x{w} {dt}", correct, h=h, w=w, dtype=dt)
    for hist in histories(tier): yield Case(f"field of view after {', '.join(hist)}", later, h=4, w=6, hist=hist)
    yield Case("others kept", kept, h=4, w=4)
    for h, w in [(2, 2), (4, 4), (4, 6), (6, 4)] + ([] if q else [(6, 8)]):
        for dt in ("float64", "uint16", "uint8", "int16", "int32", "float32") if (h, w) == (4, 4) else ("float64", "uint16"): yield Case(f"calibration {h}x{w} {dt}", calibrate, h=h, w=w, dtype=dt, ddtype="float64", free="data")
        yield Case(f"calibration {h}x{w}, any matrices", calibrate, h=h, w=w, dtype="float64", ddtype="float64")
    for dt, dd in (("uint16", "float32"), ("uint16", "int16"), ("uint16", "uint16"), ("uint8", "uint8"), ("int16", "int16"), ("float64", "uint16"), ("int32", "int32")): yield Case(f"calibration {dt} with {dd} offsets", calibrate, h=4, w=4, dtype=dt, ddtype=dd if dd != "uint8" else "int16", free="data")
    yield Case("calibration, float32 matrices", calibrate, h=4, w=4, dtype="uint16", ddtype="float32", cdtype="float32")
    yield Case("calibration, integer matrices", calibrate, h=4, w=4, dtype="uint16", ddtype="int16", cdtype="int16")
    yield Case("calibration, folder name", calibrate, h=4, w=4, dtype="uint16", ddtype="float64", free="data", path="a b/c.d [1]")
    yield Case("integers and floats alike", stored_alike, h=4, w=4)
