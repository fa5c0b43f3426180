from .common import *
ID = "C07"
BOUNDS = "images of 2x2 and 2x4 (thorough: 4x4) pixels, arbitrary real flats of nonzero mean (zero pixels included), arbitrary uint16 flats, float and uint16 images, all orientation assignments on 2x2"


def want_of(env, a, f, h, w):
    mean = env.div(env.sum([val(env, f[y, x]) for y in range(h) for x in range(w)]), h * w)

    def g(y, x):
        z = env.eq(val(env, f[y, x]), 0)
        return env.ite(z, val(env, a[y, x]), env.div(val(env, a[y, x]), env.div(env.ite(z, 1, val(env, f[y, x])), mean)))
    return put(env, (h, w), g), mean


def flat_of(env, h, w, dt, name="f", nonzero=False):
    f = env.pixels(name, (h, w), dt, 0 if dt.startswith("u") else -1000, 4095)
    s = env.sum([val(env, x) for x in f.flat])
    env.assume(env.lt(0.5 * h * w, s))
    if nonzero:
        for x in f.flat: env.assume(env.not_(env.eq(val(env, x), 0)))
    return f


def flat(env, h, w, da, df, dic):
    a = env.pixels("a", (h, w), da, 0, 65535)
    f = flat_of(env, h, w, df)
    mk = lambda x, **k: env.ml.MicropolImage(x, angle_dic=dict(dic), **k)
    fim, im = mk(f), mk(a)
    before = env.snap(fim.data, fim.Stokes_vec, fim.header)
    want, _ = want_of(env, a, f, h, w)
    r = im.correct_flat(fim)
    env.equal("pixel / (flat / mean), uncorrected where the flat is 0", im.data, want)
    env.equal("returned image", r.data, want)
    equal_stokes(env, "Stokes of the corrected data", im, spec_stokes(env, im.data, dic))
    env.same("flat unchanged", before, fim.data, fim.Stokes_vec, fim.header)
    c = mk(a, flat=fim)
    env.equal("flat given at construction", c.data, want)
    equal_stokes(env, "Stokes, flat given at construction", c, spec_stokes(env, c.data, dic))


def uniform(env, h, w, da):
    a = env.pixels("a", (h, w), da, 0, 65535)
    k = env.real("k", 0.25, 65535)
    im = env.ml.MicropolImage(a).correct_flat(env.ml.MicropolImage(put(env, (h, w), lambda y, x: k)))
    env.equal("a uniform flat changes nothing", im.data, put(env, (h, w), lambda y, x: val(env, a[y, x])))


def scaled(env, h, w, k):
    a, f = env.reals("a", (h, w), -1e4, 1e4), flat_of(env, h, w, "float64")
    one = env.ml.MicropolImage(a).correct_flat(env.ml.MicropolImage(f))
    two = env.ml.MicropolImage(a).correct_flat(env.ml.MicropolImage(f * k))
    env.equal("rescaling the flat changes nothing", two.data, one.data)


def itself(env, h, w, df):
    f = flat_of(env, h, w, df, nonzero=True)
    m = want_of(env, f, f, h, w)[1]
    im = env.ml.MicropolImage(f).correct_flat(env.ml.MicropolImage(f))
    env.equal("the corrected flat is uniform", im.data, put(env, (h, w), lambda y, x: m))


def both(env, h, w, dt):
    a, d = env.pixels("a", (h, w), dt, 0, 65535), env.pixels("d", (h, w), dt, 0, 65535)
    f = flat_of(env, h, w, "float64")
    mk = env.ml.MicropolImage
    c = mk(a, dark=mk(d), flat=mk(f))
    sub = put(env, (h, w), lambda y, x: env.max(val(env, a[y, x]) - val(env, d[y, x]), 0))
    env.equal("dark first, then flat", c.data, want_of(env, sub, f, h, w)[0])
    equal_stokes(env, "Stokes, dark and flat", c, spec_stokes(env, c.data, DEFAULT))


def after(env, hist, dic):
    """Whatever happened to the image before (fixed flat, one pixel of it 0)."""
    f = put(env, (4, 4), lambda y, x: float((3 * y + 5 * x + y * x) % 7))
    im = past(env, env.ml.MicropolImage(env.reals("a", (4, 4), 0, 300), angle_dic=dict(dic)), hist)
    a = env.ml.MicropolImage(im).data.copy()
    im.correct_flat(env.ml.MicropolImage(f))
    env.equal("pixel / (flat / mean)", im.data, want_of(env, a, f, 4, 4)[0])
    consistent(env, "corrected", im, mode_of(hist) or "adjacent")


def cases(tier):
    for n, h in enumerate(histories(tier)): yield Case("after " + ", ".join(h), after, hist=h, dic=ALL_DICS[7 * n % 24])
    for n, d in enumerate(ALL_DICS):
        if tier != "quick" or n % 4 == 0: yield Case(f"flat 2x2 {n}", flat, h=2, w=2, da="float64", df="float64", dic=d)
    for h, w in ((2, 4), (4, 2)) + (((4, 4),) if tier != "quick" else ()): yield Case(f"flat {h}x{w}", flat, h=h, w=w, da="float64", df="float64", dic=DEFAULT)
    for da, df in (("uint16", "uint16"), ("float64", "uint16"), ("uint16", "float64")): yield Case(f"flat 2x2 {da} {df}", flat, h=2, w=2, da=da, df=df, dic=DEFAULT)
    for dt in ("float64", "uint16"): yield Case(f"uniform flat {dt}", uniform, h=2, w=4, da=dt)
    for k in (2.0, 0.125, 37.0): yield Case(f"flat times {k}", scaled, h=2, w=2, k=k)
    for dt in ("float64", "uint16"): yield Case(f"flat by itself {dt}", itself, h=2, w=2, df=dt)
    for dt in ("float64", "uint16"): yield Case(f"dark and flat {dt}", both, h=2, w=2, dt=dt)
