from .common import *
ID = "C02"
BOUNDS = "all 24 orientation assignments on 4x6 mosaics of arbitrary reals; 2x2 to 6x8 (quick) / 10x12 (thorough) with the default assignment; uint8, uint16, int16, int32, float32, float64 storage over their full camera ranges; images given as array, FITS file, list of files or another image"
RANGE = {"uint8": (0, 255), "uint16": (0, 65535), "int16": (-32768, 32767), "int32": (-2**31, 2**31 - 1), "float32": (-70000, 70000), "float64": (-70000, 70000)}


def claims(env, label, im, a, dic):
    equal_stokes(env, label, im, spec_stokes(env, a, dic))
    for nm, ang in (("pol0", 0), ("pol45", 45), ("pol_45", -45), ("pol90", 90)):
        p = getattr(im, nm)
        env.equal(f"{label} {nm} holds the pixels of that orientation", p.data, fam(a, dic[ang]), tol=0)
        env.check(f"{label} {nm} names its orientation", float(p.ID) == ang, f"{p.ID!r}")
    env.check(f"{label} parameters are named", [x.ID for x in im.polparam_list] == ["I", "Q", "U", "pB", "AoLP", "DoLP"])


def given(env, h, w, dtype, dic):
    a = env.pixels("a", (h, w), dtype, *RANGE[dtype])
    im = env.ml.MicropolImage(a, angle_dic=dict(dic))
    claims(env, "given", im, a, dic)


def default(env, first, second):
    """The configured default applies only to images without their own assignment."""
    a = env.reals("a", (4, 6))
    claims(env, "unset default", env.ml.MicropolImage(a), a, DEFAULT)
    env.ml.set_default_angles(dict(first))
    im1 = env.ml.MicropolImage(a)
    claims(env, "configured", im1, a, first)
    claims(env, "own assignment", env.ml.MicropolImage(a, angle_dic=dict(second)), a, second)
    claims(env, "configured again", env.ml.MicropolImage(a), a, first)
    env.ml.set_default_angles(dict(second))
    claims(env, "reconfigured", env.ml.MicropolImage(a), a, second)
    claims(env, "earlier image", im1, a, first)
    claims(env, "copy", env.ml.MicropolImage(im1), a, first)


def own_first(env, dic):
    """An image's own assignment stays its own: it never becomes anybody else's."""
    a = env.reals("a", (4, 6))
    im = env.ml.MicropolImage(a, angle_dic=dict(dic))
    claims(env, "default after an own assignment", env.ml.MicropolImage(a), a, DEFAULT)
    claims(env, "default after a copy", (env.ml.MicropolImage(im), env.ml.MicropolImage(a))[1], a, DEFAULT)
    claims(env, "default after arithmetic", (im + im, im * 2.0, env.ml.MicropolImage(a))[2], a, DEFAULT)
    claims(env, "own assignment later", im, a, dic)
    claims(env, "copy later", env.ml.MicropolImage(im), a, dic)
    claims(env, "own assignment again", env.ml.MicropolImage(a, angle_dic=dict(dic)), a, dic)


def files(env, dtype, dic):
    a = env.pixels("a", (4, 4), dtype, *RANGE[dtype])
    env.write_fits("a.fits", a)
    claims(env, "file", env.ml.MicropolImage("a.fits", angle_dic=dict(dic)), a, dic)
    b = env.pixels("b", (4, 4), dtype, *RANGE[dtype])
    env.write_fits("b.fits", b)
    s = put(env, (4, 4), lambda y, x: val(env, a[y, x]) + val(env, b[y, x]))
    claims(env, "sum of files", env.ml.MicropolImage(["a.fits", "b.fits"], angle_dic=dict(dic), averageimages=False), s, dic)


def cases(tier):
    for n, d in enumerate(ALL_DICS): yield Case(f"assignment {n}", given, h=4, w=6, dtype="float64", dic=d)
    H, W = (6, 8) if tier == "quick" else (10, 12)
    for h in range(2, H + 1, 2):
        for w in range(2, W + 1, 2): yield Case(f"shape {h}x{w}", given, h=h, w=w, dtype="float64", dic=DEFAULT)
    for n, dt in enumerate(RANGE):
        for d in (ALL_DICS[5 + n], ALL_DICS[17 - n]) if tier == "quick" else ALL_DICS:
            yield Case(f"{dt} assignment {ALL_DICS.index(d)}", given, h=4, w=2, dtype=dt, dic=d)
    for f, s in ((7, 18), (23, 4)): yield Case(f"default {f} {s}", default, first=ALL_DICS[f], second=ALL_DICS[s])
    for f in (5, 12, 22): yield Case(f"own assignment first {f}", own_first, dic=ALL_DICS[f])
    for dt, n in (("uint8", 9), ("uint16", 14), ("int16", 20), ("float64", 2)): yield Case(f"files {dt}", files, dtype=dt, dic=ALL_DICS[n])
