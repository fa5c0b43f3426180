from .common import *
ID = "C33"
BOUNDS = "data of 1 to 6 values (quick) / 7 (thorough) in one or two dimensions stored as float64, float32 or integers, arbitrary band widths, shifts and scales, arbitrary positive signals, exposures and factors"


def one(env, label, got, want, tol=1e-6): env.equal(label, put(env, (1,), lambda i: val(env, got)), put(env, (1,), lambda i: want), tol=tol)


def elements(env, a): return [val(env, v) for v in (a.flat if not env.sym else a.ravel())]


def middle(env, xs):
    s, n = env.sort(xs), len(xs)
    return s[n // 2] if n % 2 else env.div(s[n // 2 - 1] + s[n // 2], 2)


def data(env, shape, dtype, n="a"): return env.pixels(n, shape, dtype, *((0, 255) if dtype == "uint8" else (0, 60000) if dtype == "uint16" else (-1, 1) if dtype == "float32" else (-100, 100)))


def mean_bands(env, shape, dtype, width):
    U = env.mod("utils")
    a = data(env, shape, dtype)
    before = env.snap(a)
    xs = elements(env, a)
    m = env.div(env.sum(xs), len(xs))
    var = env.div(env.sum([(x - m) * (x - m) for x in xs]), len(xs))
    args = () if width is None else (env.real("k", -4, 4) if width == "any" else width,)
    k = args[0] if args else 1
    hi, lo = val(env, U.mean_plus_std(a, *args)), val(env, U.mean_minus_std(a, *args))
    tol = 1e-4 if dtype == "float32" else 1e-6
    one(env, "middle of the band", env.div(hi + lo, 2), m, tol)
    sd = env.sqrt(var)
    one(env, "above", hi, m + k * sd, tol)
    one(env, "below", lo, m - k * sd, tol)
    env.same("data", before, a)


def median_bands(env, shape, dtype, width):
    U = env.mod("utils")
    a = data(env, shape, dtype)
    before = env.snap(a)
    xs = elements(env, a)
    m = middle(env, xs)
    d = middle(env, [env.abs(x - m) for x in xs])
    args = () if width is None else (env.real("k", -4, 4) if width == "any" else width,)
    k = args[0] if args else 1
    tol = 1e-4 if dtype == "float32" else 1e-6
    one(env, "above", U.median_plus_std(a, *args), m + k * d, tol)
    one(env, "below", U.median_minus_std(a, *args), m - k * d, tol)
    env.same("data", before, a)


def moved(env, n, c, k):
    """Shifted and scaled data: shifted and scaled bands."""
    U = env.mod("utils")
    a = env.reals("a", (n,), -100, 100)
    t = env.real("t", -1000, 1000)
    for f in ("mean_plus_std", "mean_minus_std", "median_plus_std", "median_minus_std"):
        g = getattr(U, f)
        r = val(env, g(a, k))
        one(env, f"{f}: shifted", g(put(env, (n,), lambda i: val(env, a[i]) + t), k), r + t)
        one(env, f"{f}: scaled", g(put(env, (n,), lambda i: val(env, a[i]) * c), k), r * c)


def photons(env, kind):
    s = env.mod("utils").sigma_DN
    if kind == "number":
        x = env.real("x", 0, 100000)
        r = val(env, s(x))
        one(env, "variance", r * r * 6.93, x)
        env.check("not negative", env.le(0, r))
        return
    a = env.pixels("a", (2, 2), kind, 0, 255 if kind == "uint8" else 60000)
    before = env.snap(a)
    r = s(a)
    for y in range(2):
        for x in range(2):
            v = val(env, r[y, x])
            one(env, f"variance {y},{x}", v * v * 6.93, val(env, a[y, x]), 2e-2 if kind == "uint8" else 1e-3 if kind == "float32" else 1e-6)
            env.check(f"not negative {y},{x}", env.le(0, v))
    env.same("signal", before, a)


def sun_units(env):
    B = env.mod("utils").get_Bsun_units
    I, t, T, k = env.real("I", 1, 60000), env.real("t", 0.125, 100), env.real("T", 0.125, 100), env.real("k", 0.25, 16)
    u = 1.083e-5 * 0.28
    big = lambda x: val(env, x) * 1e6      # the factor itself is far below the tolerance
    f = lambda i, a, b: env.div(env.div(u * 1e6 * b, a), i)
    one(env, "factor", big(B(I, t, T)), f(I, t, T))
    one(env, "by name", big(B(diffuser_I=I, texp_image=t, texp_diffuser=T)), f(I, t, T))
    one(env, "default exposures", big(B(I)), f(I, 1, 1))
    one(env, "default diffuser exposure", big(B(I, t)), f(I, t, 1))
    one(env, "image exposure", big(B(I, t * k, T)) * k, big(B(I, t, T)))
    one(env, "diffuser signal", big(B(I * k, t, T)) * k, big(B(I, t, T)))
    one(env, "diffuser exposure", big(B(I, t, T * k)), big(B(I, t, T)) * k)


def whole(env):
    """Integer signals and exposures."""
    B = env.mod("utils").get_Bsun_units
    for i, t, T in ((3, 2, 1), (1, 1, 1), (7, 3, 2), (4000, 5, 10)): one(env, f"{i, t, T}", val(env, B(i, t, T)) * 1e6, 1.083e-5 * 0.28 * 1e6 * T / t / i, 1e-9)


def cases(tier):
    q = tier == "quick"
    W = ("any", None, 3, 0, 2.5, -1)
    for n, sh in enumerate(((1,), (2,), (3,), (2, 2), (4,), (5,), (2, 3)) + (() if q else ((7,), (3, 3)))): yield Case(f"mean bands {sh}", mean_bands, shape=sh, dtype="float64", width=W[n % 6])
    for n, sh in enumerate(((1,), (2,), (3,), (2, 2), (4,)) + (((5,),) if q else ((5,), (2, 3), (7,)))): yield Case(f"median bands {sh}", median_bands, shape=sh, dtype="float64", width=W[(n + n // 6) % 6])
    for n, dt in enumerate(("uint8", "uint16", "int16", "int32", "int64", "float32")):
        yield Case(f"mean bands of {dt}", mean_bands, shape=(2, 2), dtype=dt, width=W[n % 6])
        yield Case(f"median bands of {dt}", median_bands, shape=(2,) if dt == "float32" else (3 + n % 2,), dtype=dt, width=None if dt == "float32" else W[(n + 1) % 6])
    for n in (2, 3, 4):
        for c, k in ((2, 1), (0.5, 3)): yield Case(f"{n} values moved, scale {c}", moved, n=n, c=c, k=k)
    for k in ("number", "float64", "uint8", "uint16", "int32", "float32"): yield Case(f"photon noise of {k}", photons, kind=k)
    yield Case("sun units", sun_units)
    yield Case("sun units of whole numbers", whole)
