from .common import *
import os
ID = "C25"
BOUNDS = "images of 2x2 to 4x6 pixels with arbitrary values stored as float64, float32, uint8, uint16, int16 or int32, all 24 orientation dictionaries, arbitrary clamping limits of either sign (and zero), arbitrary extra header cards from a fixed list, file names with dots, folders and spaces, images with earlier operations"
CARDS = [("OBSERVER", "Somebody"), ("EXPTIME", 0.25), ("GAIN", 7), ("DATE-OBS", "2022-03-04T05:06:07")]
PARAMS = ("I", "Q", "U", "pB", "AoLP", "DoLP")


def files(root="."):
    return sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)


def image(env, h, w, dtype="float64", dic=None, hist=(), cls="MicropolImage"):
    lo, hi = (0, 255) if dtype == "uint8" else (0, 65535) if dtype == "uint16" else (-3000, 3000)
    a = env.pixels("a", (h, w), dtype, lo, hi)
    kw = dict(angle_dic=dict(dic)) if dic else {}
    os.makedirs("src", exist_ok=True)
    env.write_fits("src/in.fits", a, CARDS)
    im = getattr(env.ml, cls)("src/in.fits", **kw)
    return past(env, im, hist)


def holds(env, label, path, want, size=None):
    """The file's data and cards."""
    d, hd = env.read_fits(path)
    env.equal(f"{label}: data", d, want)
    env.check(f"{label}: axis sizes", hd["NAXIS1"] == want.shape[1] and hd["NAXIS2"] == want.shape[0])
    for k, v in CARDS: env.check(f"{label}: card {k}", hd.get(k) == v, f"{hd.get(k)!r} instead of {v!r}")
    return hd


def clamp(env, a, lim):
    if lim is None: return a
    return put(env, a.shape, lambda y, x: env.min(env.max(val(env, a[y, x]), lim[0]), lim[1]))


def limits(env, kind):
    if kind is None: return None
    if kind == "zero": return (0, 0)
    if kind == "from zero": return (0, env.real("hi", 0, 500))
    if kind == "to zero": return (env.real("lo", -500, 0), 0)
    if kind == "integers": return (-7, 130)
    lo = env.real("lo", -500, 500)
    return (lo, lo + env.real("span", 0, 500))


def whole(env, h, w, dtype, lim, cls, path, hist=()):
    im = image(env, h, w, dtype, cls=cls, hist=hist)
    L = limits(env, lim)
    before = env.snap(observe(im))
    had = files()
    im.save_as_fits(path, **({} if L is None else dict(fixto=list(L))))
    env.same("image in memory", before, observe(im))
    env.check("one new file", sorted(set(files()) - set(had)) == [os.path.join(".", os.path.normpath(path))], f"{files()}")
    holds(env, "saved", path, clamp(env, im.data, L))
    r = getattr(env.ml, cls)(path)
    env.equal("loaded again", r.data, clamp(env, im.data, L))



def params(env, h, w, dtype, dic=None, hist=(), path="out.fits"):
    im = image(env, h, w, dtype, dic, hist)
    before = env.snap(observe(im))
    had = files()
    im.save_all_pol_params_as_fits(path)
    env.same("image in memory", before, observe(im))
    stem = os.path.join(".", os.path.normpath(path))[:-5]
    env.check("six new files", sorted(set(files()) - set(had)) == sorted(f"{stem}_{p}.fits" for p in PARAMS), f"{sorted(set(files()) - set(had))}")
    titles = {p: holds(env, p, f"{stem}_{p}.fits", getattr(im, p).data)["PARAM"] for p in PARAMS}
    env.check("six titles", len(set(titles.values())) == 6, f"{titles}")
    for p in PARAMS: env.check(f"title of {p}", titles[p] == str(getattr(im, p).title), f"{titles[p]}")


def one_param(env, h, w, dtype, p, lim=None, hist=(), path="sub/one.fits"):
    im = image(env, h, w, dtype, hist=hist)
    L = limits(env, lim)
    before = env.snap(observe(im))
    had = files()
    im.save_param_as_fits(p, path, **({} if L is None else dict(fixto=L)))
    env.same("image in memory", before, observe(im))
    f = os.path.join(".", os.path.normpath(path))[:-5] + f"_{p}.fits"
    env.check("one new file", sorted(set(files()) - set(had)) == [f], f"{sorted(set(files()) - set(had))}")
    hd = holds(env, p, f, clamp(env, getattr(im, p).data, L))
    env.check("title", hd["PARAM"] == str(getattr(im, p).title), f"{hd['PARAM']}")


def singles(env, h, w, dtype, dic, lim=None, hist=(), path="pol.fits", demo=None):
    im = image(env, h, w, dtype, dic, hist)
    if demo: im.demosaic(demo)
    L = limits(env, lim)
    before = env.snap(observe(im))
    had = files()
    (im.save_demosaiced_images_as_fits if demo else im.save_single_pol_images)(path, **({} if L is None else dict(fixto=L)))
    env.same("image in memory", before, observe(im))
    new = sorted(set(files()) - set(had))
    env.check("four new files", len(new) == 4, f"{new}")
    stem = os.path.join(".", os.path.normpath(path))[:-5]
    for a in ANGLES:
        f = next((n for n in new if n in (f"{stem}_POL{a}.fits", f"{stem}POL{a}.fits")), None)
        env.check(f"a file for {a} degrees", f is not None, f"{new}")
        if f is None: continue
        src = im.demosaiced_images[im.angle_dic[a]] if demo else fam(im.data, im.angle_dic[a])
        hd = holds(env, f"{a} degrees", f, clamp(env, src, L))
        env.check(f"orientation of {a} degrees", int(hd["POL"]) == a, f"{hd['POL']!r}")


def twice(env):
    """Saving over existing files replaces them."""
    a, b = env.reals("a", (2, 2)), env.reals("b", (4, 4))
    for n, d in enumerate((a, b, a)):
        im = env.ml.MicropolImage(d)
        im.save_as_fits("x.fits")
        env.equal(f"image {n}", env.read_fits("x.fits")[0], d)
        im.save_all_pol_params_as_fits("x.fits")
        for p in PARAMS: env.equal(f"{p} {n}", env.read_fits(f"x_{p}.fits")[0], getattr(im, p).data)
        im.save_single_pol_images("x.fits")
        im.demosaic()
        im.save_demosaiced_images_as_fits("y.fits")
        for q in ANGLES: env.equal(f"demosaiced {q} {n}", env.read_fits(f"y_POL{q}.fits")[0], im.demosaiced_images[im.angle_dic[q]])


def refused(env, bad):
    im = env.ml.MicropolImage(fixed(env, 4, 4, lambda y, x: 3 * y + x + 1.0).data)
    env.raises("undemosaiced", lambda: im.save_demosaiced_images_as_fits("ok.fits"))
    im.demosaic()
    for n, f in (("image", im.save_as_fits), ("parameters", im.save_all_pol_params_as_fits), ("one parameter", lambda p: im.save_param_as_fits("I", p)), ("orientations", im.save_single_pol_images), ("demosaiced", im.save_demosaiced_images_as_fits)):
        env.raises(f"{n} as {bad!r}", lambda: f(bad))
    env.check("nothing written", files() == [], f"{files()}")


def cases(tier):
    q = tier == "quick"
    dts = ("float64", "float32", "uint8", "uint16", "int16", "int32")
    for n, dt in enumerate(dts):
        yield Case(f"image {dt}", whole, h=2, w=4, dtype=dt, lim=None, cls=("MicropolImage", "Image")[n % 2], path="out.fits")
        yield Case(f"image {dt} clamped", whole, h=2, w=2, dtype=dt, lim="any", cls=("Image", "MicropolImage")[n % 2], path="out.fits")
    for l in ("zero", "from zero", "to zero", "integers"):
        for dt in ("float64", "uint8", "uint16"): yield Case(f"image {dt} clamped {l}", whole, h=2, w=2, dtype=dt, lim=l, cls="MicropolImage", path="out.fits")
    for p in ("new folder/deep/run.2.fits", "a.b/c.fits", "./x.fits", "data.fits.fits", "C0_POL45.fits"):
        yield Case(f"image as {p}", whole, h=2, w=2, dtype="float64", lim=None, cls="MicropolImage", path=p)
        yield Case(f"parameters as {p}", params, h=2, w=2, dtype="float64", path=p)
        yield Case(f"parameter as {p}", one_param, h=2, w=2, dtype="float64", p="Q", path=p)
        yield Case(f"orientations as {p}", singles, h=2, w=2, dtype="float64", dic=None, path=p)
        yield Case(f"demosaiced as {p}", singles, h=2, w=2, dtype="float64", dic=None, path=p, demo="adjacent")
    for n, dt in enumerate(dts):
        yield Case(f"parameters {dt}", params, h=2, w=4, dtype=dt, dic=ALL_DICS[5 * n % 24])
        yield Case(f"orientations {dt}", singles, h=4, w=2, dtype=dt, dic=ALL_DICS[(5 * n + 7) % 24])
        yield Case(f"orientations {dt} clamped", singles, h=2, w=2, dtype=dt, dic=ALL_DICS[(5 * n + 3) % 24], lim="any")
        yield Case(f"demosaiced {dt}", singles, h=2, w=4, dtype=dt, dic=ALL_DICS[(5 * n + 11) % 24], demo=("adjacent", "mean")[n % 2])
    for n, d in enumerate(ALL_DICS):
        if q and n % 2: continue
        yield Case(f"orientations {d}", singles, h=2, w=2, dtype="float64", dic=d)
        yield Case(f"demosaiced {d}", singles, h=2, w=2, dtype="float64", dic=d, demo="adjacent", lim="any" if n % 4 == 0 else None)
    for n, p in enumerate(PARAMS):
        yield Case(f"one {p}", one_param, h=2, w=4, dtype=dts[n], p=p)
        if p not in ("AoLP", "DoLP"): yield Case(f"one {p} clamped", one_param, h=2, w=2, dtype="float64", p=p, lim=("any", "from zero", "zero", "to zero")[n])
    for hist in histories(tier):
        yield Case(f"image after {', '.join(hist)}", whole, h=2, w=2, dtype="float64", lim="any", cls="MicropolImage", path="out.fits", hist=hist)
        yield Case(f"parameters after {', '.join(hist)}", params, h=2, w=2, dtype="float64", hist=hist)
        yield Case(f"orientations after {', '.join(hist)}", singles, h=2, w=2, dtype="float64", dic=None, hist=hist)
    yield Case("saved twice", twice)
    for b in ("folder", "x.txt", "x.fits.gz", "x.fit", "a.fits/b", "x.FITS.raw"): yield Case(f"refused {b}", refused, bad=b)
