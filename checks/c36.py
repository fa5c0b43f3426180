from .common import *
ID = "C36"
BOUNDS = "images of 2x2 to 4x6 pixels with arbitrary values stored as float64, uint16 or int16, all 24 orientation dictionaries, images with earlier operations, arbitrary color limits; histograms with 2 to 5 bins of arbitrary values over a fixed range, fixed edges or the range of the data; demodulation tensors of 1x1 to 2x3 superpixels"
ASSUMPTIONS = ["matplotlib is represented by figures that remember the arrays, limits, titles and steps handed to their axes; the concrete runs read them back from real matplotlib figures"]
PARAMS = ("I", "Q", "U", "pB", "AoLP", "DoLP")


def picture(env, label, ax, want, lim=None, title=None):
    """The only image drawn on the axis."""
    imgs, _, t = env.drawn(ax)
    env.check(f"{label}: one image drawn", len(imgs) == 1)
    a, lo, hi = imgs[0]
    env.equal(f"{label}: values shown", a, want)
    if lim and not (not env.sym and reversed_limits(want, lim)): limits(env, label, lo, hi, *lim)
    if title is not None: env.check(f"{label}: title", all(s in t for s in title), f"title {t!r}")


def reversed_limits(a, lim):
    """The colorbar of the real library changes limits that coincide or are reversed."""
    m, s = float(a.mean()), float(a.std())
    l, u = (d if v is None else v for v, d in zip(lim, (m - s, m + s)))
    return l >= u - 1e-9 * (1 + abs(u))


def limits(env, label, lo, hi, l, u):
    for n, got, want in (("lower", lo, l), ("upper", hi, u)):
        if want is None: continue
        env.check(f"{label}: {n} limit given", got is not None)
        one = lambda v: put(env, (1,), lambda _: val(env, v))
        env.equal(f"{label}: {n} limit", one(got), one(want))


def band(env, label, ax, a, lo=True, hi=True):
    """Limits a standard deviation around the mean."""
    (_, l, u), = env.drawn(ax)[0]
    xs = [val(env, a[i]) for i in __import__("numpy").ndindex(a.shape)]
    n = len(xs)
    mean = env.div(env.sum(xs), n)
    var = env.div(env.sum([(x - mean) * (x - mean) for x in xs]), n)
    if not env.sym and (var <= 1e-18 * (1 + mean * mean) or l >= u or not (lo and hi)): return
    one = lambda v: put(env, (1,), lambda _: v)
    for f, v, s in ((lo, l, -1), (hi, u, 1)):
        if not f: continue
        d = s * (val(env, v) - mean)
        env.check(f"{label}: limit on its side of the mean", env.le(-1e-9, d))
        env.equal(f"{label}: limit a standard deviation from the mean", one(d * d), one(var), tol=1e-6)


def upper(env, kw):
    """An upper limit above the lower one, if that is given; 0 included."""
    v = env.real("vmax", -50, 900)
    if "vmin" in kw: env.assume(env.lt(kw["vmin"], v))
    return v


def image(env, h, w, dtype="float64", dic=None, hist=(), n="a"):
    im = env.ml.MicropolImage(env.pixels(n, (h, w), dtype), dict(dic or DEFAULT))
    return past(env, im, hist) if hist else im


def shown(env, h, w, dtype, lim, cls="MicropolImage"):
    a = env.pixels("a", (h, w), dtype)
    im = getattr(env.ml, cls)(a.copy())
    before = env.snap(*observe(im))
    vs = [val(env, a[i]) for i in __import__("numpy").ndindex(h, w)]
    lo = hi = None
    kw = {}
    if "min" in lim: kw["vmin"] = lo = env.real("vmin", -100, 500)
    if "max" in lim: kw["vmax"] = hi = upper(env, kw)
    if lo is None:
        lo = vs[0]
        for v in vs[1:]: lo = env.min(lo, v)
    if hi is None:
        hi = vs[0]
        for v in vs[1:]: hi = env.max(hi, v)
    fig, ax = im.show(**kw)
    picture(env, "show", ax, a, (lo, hi))
    env.same("image unchanged", before, *observe(im))


def parameters(env, h, w, dtype="float64", dic=None, hist=(), whole=False):
    im = image(env, h, w, dtype, dic, hist)
    want = [getattr(im, p).data.copy() for p in PARAMS]
    spec = [im.Stokes_vec[k].copy() for k in range(3)] if hist else spec_stokes(env, im.data, dic or DEFAULT)
    before = env.snap(*observe(im))
    if whole:
        f, a, fig, ax = im.show_with_pol_params()
        picture(env, "show_with_pol_params", a, im.data)
        if dtype == "float64" and not hist: band(env, "show_with_pol_params", a, im.data)
    else: fig, ax = im.show_pol_params()
    ax = list(ax)
    env.check("six axes", len(ax) == 6)
    for k, (p, x) in enumerate(zip(PARAMS, ax)):
        picture(env, p, x, spec[k] if k < 3 else want[k], title=(getattr(im, p).title,))
        if k < 3 and dtype == "float64" and not hist: band(env, p, x, spec[k])
    env.same("image unchanged", before, *observe(im))


def one(env, h, w, p, lim, dic=None, hist=()):
    im = image(env, h, w, "float64", dic, hist)
    want = getattr(im, p).data.copy()
    before = env.snap(*observe(im))
    kw = {}
    if "min" in lim: kw["vmin"] = env.real("vmin", -100, 500)
    if "max" in lim: kw["vmax"] = upper(env, kw)
    fig, ax = im.show_pol_param(p, **kw)
    picture(env, p, ax, want, (kw.get("vmin"), kw.get("vmax")), title=(getattr(im, p).title,))
    if p in "IQU": band(env, p, ax, want, "min" not in lim, "max" not in lim)
    env.same("image unchanged", before, *observe(im))


def singles(env, h, w, dtype="float64", dic=None, hist=()):
    im = image(env, h, w, dtype, dic, hist)
    d = dic or DEFAULT
    before = env.snap(*observe(im))
    fig, ax = im.show_single_pol_images()
    ax = list(ax)
    env.check("four axes", len(ax) == 4)
    seen = set()
    for x in ax:
        t = env.drawn(x)[2]
        ang = next((q for q in (-45, 45, 90, 0) if str(q) in t), None)       # the orientation the title names
        env.check("an orientation named once", ang is not None and ang not in seen, f"title {t!r}")
        seen.add(ang)
        picture(env, f"{ang} degrees", x, fam(im.data, d[ang]))
    env.same("image unchanged", before, *observe(im))


def demosaiced(env, h, w, mode, dic, lim):
    im = image(env, h, w, "float64", dic)
    im = im.demosaic(mode)
    want = spec_demosaic(env, im.data, mode)
    before = env.snap(*observe(im))
    kw = {}
    if "min" in lim: kw["vmin"] = env.real("vmin", -100, 500)
    if "max" in lim: kw["vmax"] = upper(env, kw)
    fig, ax = im.show_demo_images(**kw)
    ax = list(ax)
    env.check("four axes", len(ax) == 4)
    seen = set()
    for x in ax:
        t = env.drawn(x)[2]
        ang = next((q for q in (-45, 45, 90, 0) if str(q) in t), None)
        env.check("an orientation named once", ang is not None and ang not in seen, f"title {t!r}")
        seen.add(ang)
        picture(env, f"{ang} degrees", x, want[dic[ang]], (kw.get("vmin"), kw.get("vmax")))
        band(env, f"{ang} degrees", x, want[dic[ang]], "min" not in lim, "max" not in lim)
    env.same("image unchanged", before, *observe(im))


def counts(env, xs, edges):
    """Values in each bin: half open, the last one closed."""
    out = []
    for k in range(len(edges) - 1):
        up = env.le if k == len(edges) - 2 else env.lt
        out.append(env.sum([env.ite(env.and_(env.le(edges[k], x), up(x, edges[k + 1])), 1, 0) for x in xs]))
    return put(env, (len(out),), lambda k: out[k], "int64")


def histogram(env, h, w, dtype, kw, split, cls="MicropolImage", edges=None):
    a = env.pixels("a", (h, w), dtype)
    im = getattr(env.ml, cls)(a.copy())
    before = env.snap(*observe(im))
    args = dict(kw) if split is None else dict(kw, split_pols=split)
    fig, ax = im.show_histogram(**args)
    steps = env.drawn(ax)[1]
    fams = [a] + [fam(a, k) for k in range(4)] if cls == "MicropolImage" and split in (True, None) else [a]
    env.check("one histogram, and one per family if split", len(steps) == len(fams))
    for k, (f, (v, e)) in enumerate(zip(fams, steps)):
        n = f"family {k - 1}" if k else "whole image"
        if edges is not None: env.equal(f"{n}: edges", e, put(env, (len(edges),), lambda i: float(edges[i])))
        es = [val(env, e[i]) for i in range(len(e))]
        xs = [val(env, f[i]) for i in __import__("numpy").ndindex(f.shape)]
        if edges is None: env.check(f"{n}: every pixel lies between the outer edges", env.and_(*[env.and_(env.le(es[0], x), env.le(x, es[-1])) for x in xs]))
        if edges is not None: env.equal(f"{n}: counts", v, counts(env, xs, es))
        env.check(f"{n}: total", env.sum([val(env, v[i]) for i in range(len(es) - 1)]) == len(xs) if edges is None else True)
    env.same("image unchanged", before, *observe(im))


def tensor(env, h, w, lim):
    m = env.reals("m", (3, 4, h, w), -3, 3)
    D = demodulator(env, m)
    before = env.snap(D.mij)
    kw = {}
    if lim:
        kw = dict(vmin=env.real("vmin", -2, 0.5), vmax=env.real("vmax", -1, 2))
        env.assume(env.lt(kw["vmin"], kw["vmax"]))
    fig, ax = D.show(**kw)
    for i in range(3):
        for j in range(4): picture(env, f"M{i}{j}", ax[i, j], m[i, j], (kw.get("vmin", -1), kw.get("vmax", 1)), title=(str(i), str(j)))
    env.same("demodulator unchanged", before, D.mij)


def cases(tier):
    deep = tier != "quick"
    n = 0
    for h, w, dt in ((2, 2, "float64"), (2, 4, "uint16"), (4, 2, "int16")) + (((4, 6, "float64"),) if deep else ()):
        for lim in ((), ("min",), ("max",), ("min", "max")): yield Case(f"show {h}x{w} {dt} {lim}", shown, h=h, w=w, dtype=dt, lim=lim)
    yield Case("show plain image", shown, h=3, w=2, dtype="float64", lim=(), cls="Image")
    for k, d in enumerate(ALL_DICS if deep else ALL_DICS[::6]):
        yield Case(f"parameters {list(by_position(d))}", parameters, h=2, w=2 + 2 * (k % 2), dtype="float64", dic=d, whole=bool(k % 2))
    yield Case("parameters uint16", parameters, h=2, w=2, dtype="uint16", whole=True)
    for p in histories(tier)[:6 if not deep else 40]: yield Case("parameters after " + ", ".join(p), parameters, h=4, w=4, hist=p)
    for k, p in enumerate(PARAMS):
        for lim in ((), ("min", "max")) if not deep else ((), ("min",), ("max",), ("min", "max")): yield Case(f"{p} {lim}", one, h=2, w=4, p=p, lim=lim, dic=ALL_DICS[3 * k + 1])
    for k, d in enumerate(ALL_DICS): yield Case(f"single orientations {list(by_position(d))}", singles, h=2, w=4, dic=d, dtype=("float64", "uint16", "int16")[k % 3])
    for mode in ("mean", "adjacent"):
        for lim in ((), ("min",), ("max",), ("min", "max")):
            n += 5
            yield Case(f"demosaiced {mode} {lim}", demosaiced, h=2, w=2, mode=mode, dic=ALL_DICS[n % 24], lim=lim)
    if deep: yield Case("demosaiced 4x4", demosaiced, h=4, w=4, mode="mean", dic=ALL_DICS[7], lim=("min", "max"))
    for dt in ("float64", "uint16"):
        for s in (True, False, None): yield Case(f"histogram {dt} split {s}", histogram, h=2, w=4, dtype=dt, kw=dict(bins=4, range=(0, 800)), split=s, edges=(0, 200, 400, 600, 800))
    yield Case("histogram high", histogram, h=6, w=2, dtype="int16", kw=dict(bins=2, range=(0, 800)), split=True, edges=(0, 400, 800))
    yield Case("histogram wide", histogram, h=2, w=6, dtype="float64", kw=dict(bins=2, range=(0, 800)), split=True, edges=(0, 400, 800))
    yield Case("histogram edges", histogram, h=4, w=4, dtype="float64", kw=dict(bins=[-50.0, 0.0, 10.0, 300.0]), split=True, edges=(-50, 0, 10, 300))
    yield Case("histogram plain", histogram, h=2, w=3, dtype="float64", kw=dict(bins=3, range=(0, 30)), split=None, cls="Image", edges=(0, 10, 20, 30))
    yield Case("histogram range of the data", histogram, h=1, w=3, dtype="float64", kw=dict(bins=2), split=None, cls="Image")
    for h, w in ((1, 1), (2, 3)):
        for lim in (False, True): yield Case(f"tensor {h}x{w}{' limits' * lim}", tensor, h=h, w=w, lim=lim)
