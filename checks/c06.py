from .common import *
ID = "C06"
BOUNDS = "images of 2x2 to 4x6 pixels, every pixel and dark value of uint8, uint16, int16, int32 and float32/float64 storage, same and mixed, all orientation assignments on 2x4"
RANGE = {"uint8": (0, 255), "uint16": (0, 65535), "int16": (-32768, 32767), "int32": (-2**31, 2**31 - 1), "float64": (-1e5, 1e5), "float32": (-1e5, 1e5)}


def dark(env, h, w, da, dd, dic):
    a, d = env.pixels("a", (h, w), da, *RANGE[da]), env.pixels("d", (h, w), dd, *RANGE[dd])
    mk = lambda x: env.ml.MicropolImage(x, angle_dic=dict(dic))
    darkim = mk(d)
    before = env.snap(darkim.data, darkim.Stokes_vec, darkim.header)
    want = put(env, (h, w), lambda y, x: env.max(val(env, a[y, x]) - val(env, d[y, x]), 0))
    im = mk(a)
    r = im.subtract_dark(darkim)
    env.equal("max(pixel - dark, 0)", im.data, want)
    env.equal("returned image", r.data, want)
    equal_stokes(env, "Stokes of the corrected data", im, spec_stokes(env, want, dic))
    env.same("dark unchanged", before, darkim.data, darkim.Stokes_vec, darkim.header)
    c = env.ml.MicropolImage(a, angle_dic=dict(dic), dark=darkim)
    env.equal("dark given at construction", c.data, want)
    equal_stokes(env, "Stokes, dark given at construction", c, spec_stokes(env, want, dic))
    env.same("dark unchanged by construction", before, darkim.data, darkim.Stokes_vec, darkim.header)
    env.equal("input array unchanged", a, env.snap(a)[0][1], tol=0)


def files(env, da, dd):
    a, d = env.pixels("a", (2, 4), da, *RANGE[da]), env.pixels("d", (2, 4), dd, *RANGE[dd])
    env.write_fits("a.fits", a)
    env.write_fits("d.fits", d)
    im = env.ml.MicropolImage("a.fits", dark=env.ml.MicropolImage("d.fits"))
    want = put(env, (2, 4), lambda y, x: env.max(val(env, a[y, x]) - val(env, d[y, x]), 0))
    env.equal("files: max(pixel - dark, 0)", im.data, want)
    equal_stokes(env, "files: Stokes", im, spec_stokes(env, want, DEFAULT))


def twice(env, h, w):
    """Two darks in a row clamp after each."""
    a, d, e = (env.ints(n, (h, w), 0, 65535, "uint16") for n in "ade")
    mk = env.ml.MicropolImage
    im = mk(a)
    im.subtract_dark(mk(d))
    im.subtract_dark(mk(e))
    want = put(env, (h, w), lambda y, x: env.max(env.max(val(env, a[y, x]) - val(env, d[y, x]), 0) - val(env, e[y, x]), 0))
    env.equal("two darks", im.data, want)


def after(env, hist, dic):
    """Whatever happened to the image before."""
    d = env.reals("d", (4, 4), -20, 300)
    im = past(env, env.ml.MicropolImage(env.reals("a", (4, 4), 0, 300), angle_dic=dict(dic)), hist)
    a = env.ml.MicropolImage(im).data.copy()
    im.subtract_dark(env.ml.MicropolImage(d))
    env.equal("max(pixel - dark, 0)", im.data, put(env, (4, 4), lambda y, x: env.max(val(env, a[y, x]) - val(env, d[y, x]), 0)))
    consistent(env, "corrected", im, mode_of(hist) or "adjacent")


def cases(tier):
    for n, h in enumerate(histories(tier)): yield Case("after " + ", ".join(h), after, hist=h, dic=ALL_DICS[7 * n % 24])
    T = ["uint8", "uint16", "int16", "float64"] + (["int32", "float32"] if tier != "quick" else [])
    for n, da in enumerate(T):
        for m, dd in enumerate(T):
            yield Case(f"{da} minus {dd}", dark, h=2, w=4, da=da, dd=dd, dic=ALL_DICS[(5 * n + 7 * m) % 24])
    for h, w in ((2, 2), (4, 2), (4, 6)): yield Case(f"{h}x{w}", dark, h=h, w=w, da="uint16", dd="uint16", dic=DEFAULT)
    for da, dd in (("uint16", "uint16"), ("uint8", "uint16"), ("float64", "uint8")): yield Case(f"files {da} {dd}", files, da=da, dd=dd)
    yield Case("two darks", twice, h=2, w=4)
