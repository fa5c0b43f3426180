from .common import *
from numpy import ndindex
ID = "C23"
BOUNDS = "1x1 to 3x4 superpixels (quick) / 5x6 (thorough), arbitrary demodulation matrices, per-pixel errors stored as float64, float32, uint8, uint16 or int32, arbitrary Stokes parameters with nonzero intensity and polarization (including Q = 0 and U = 0), images as taken, demodulated, with fit flags"


def S_spec(env, m, e):
    """sigma_S^2 = M^2 sigma^2, per superpixel."""
    h, w = m.shape[2:]
    sq = lambda x: x * x
    return put(env, (3, h, w), lambda i, y, x: env.sum([sq(val(env, m[i, k, y, x])) * sq(val(env, e[2 * y + k // 2, 2 * x + k % 2])) for k in range(4)]))


def squared(env, label, got, want, tol=1e-6):
    """got is the nonnegative root of want."""
    env.check(f"{label}: shape", tuple(got.shape) == tuple(want.shape), f"{got.shape} instead of {want.shape}")
    r = {i: env.root_of(got[i]) for i in ndindex(want.shape)}
    env.check(f"{label}: not negative", env.and_(*[env.le(0, val(env, got[i])) for i, (_, known) in r.items() if not known]))
    env.equal(label, put(env, want.shape, lambda *i: r[i][0]), want, tol=tol)


def specs(env, S, V):
    """First-order variances of pB, DoLP, AoLP from Stokes S and their variances V."""
    h, w = S.shape[1:]
    v = lambda a, k, y, x: val(env, a[k, y, x])

    def pb(y, x):
        Q, U = v(S, 1, y, x), v(S, 2, y, x)
        return env.div(Q * Q * v(V, 1, y, x) + U * U * v(V, 2, y, x), Q * Q + U * U)

    def dolp(y, x):
        I, Q, U = v(S, 0, y, x), v(S, 1, y, x), v(S, 2, y, x)
        p = Q * Q + U * U
        return env.div(Q * Q * v(V, 1, y, x) + U * U * v(V, 2, y, x), I * I * p) + env.div(p * v(V, 0, y, x), I * I * I * I)

    def aolp(y, x):
        Q, U = v(S, 1, y, x), v(S, 2, y, x)
        p = Q * Q + U * U
        return env.div(Q * Q * v(V, 2, y, x) + U * U * v(V, 1, y, x), 4 * p * p)
    return [put(env, (h, w), f) for f in (pb, dolp, aolp)]


def stokes(env, h, w, dtype):
    m = env.reals("m", (3, 4, h, w), -200, 200)
    e = env.pixels("e", (2 * h, 2 * w), dtype, 0, 255 if dtype == "uint8" else 4000)
    d = demodulator(env, m)
    before = env.snap(e, d.mij)
    E = env.mod("processing.demodulation_errors")
    s = E.get_error_on_Stokes(e, d)
    squared(env, "Stokes errors", s, S_spec(env, m, e))
    env.same("arguments", before, e, d.mij)
    env.noalias("Stokes errors", s, e)


def propagate(env, zero, unit):
    """One superpixel, arbitrary Stokes parameters and errors."""
    I, Q, U = [0.0 if k in zero else env.real(k, -3000, 3000) for k in "IQU"]
    env.assume(env.not_(env.eq(I, 0)))
    env.assume(env.not_(env.and_(env.eq(Q, 0), env.eq(U, 0))))
    sg = [1.0 if unit == k else 0.0 if unit else env.real(f"s{k}", 0, 500) for k in "IQU"]
    S = put(env, (3, 1, 1), lambda k, y, x: (I, Q, U)[k])
    s = put(env, (3, 1, 1), lambda k, y, x: sg[k])
    E = env.mod("processing.demodulation_errors")
    V = put(env, (3, 1, 1), lambda k, y, x: sg[k] * sg[k])
    before = env.snap(S, s)
    for n, f, want in zip(("pB", "DoLP", "AoLP"), (E.get_error_on_pB, E.get_error_on_DoLP, E.get_error_on_AoLP), specs(env, S, V)):
        squared(env, n, f(S, s), want)
    env.same("arguments", before, S, s)


def placed(env, h, w):
    """Every superpixel uses its own parameters and errors."""
    S = put(env, (3, h, w), lambda k, y, x: (64.0 if k == 0 else [(3, 4), (-4, 3), (5, 0), (0, -5)][(3 * y + x) % 4][k - 1] * 4.0 * (1 + x)))
    s = put(env, (3, h, w), lambda k, y, x: env.real(f"s{k},{y},{x}", 0, 500))
    E = env.mod("processing.demodulation_errors")
    V = put(env, (3, h, w), lambda k, y, x: val(env, s[k, y, x]) * val(env, s[k, y, x]))
    for n, f, want in zip(("pB", "DoLP", "AoLP"), (E.get_error_on_pB, E.get_error_on_DoLP, E.get_error_on_AoLP), specs(env, S, V)):
        squared(env, n, f(S, s), want)


def exact(y, x):
    """Pixels with intensity 512 and a Pythagorean polarization, so that nothing is rounded."""
    t = 8 * (1 + (y // 2 + 2 * (x // 2)) % 4)
    q, u = [(3, 4), (-4, 3), (5, 0), (0, -5)][(y // 2 * 3 + x // 2) % 4]
    c = 100
    e = (1024 - (q + u) * t - 2 * c) / 2
    return ((c + q * t, e + u * t), (e, c))[y % 2][x % 2]


def whole(env, h, w, kind, dtype, sym):
    """The error object of an image, whatever the image went through."""
    H, W = 2 * h, 2 * w
    fl = env._mkarr([float((y + x) % 2) for y in range(h) for x in range(w)], (h, w), float) if kind == "flags" else None
    rows = [[.5, .5, .5, .5], [3, 0, 0, 4], [0, 5, -12, 0]] if sym == "image" else [[.5, .5, .5, .5], [1, 0, 0, -1], [0, 1, -1, 0]]
    m = put(env, (3, 4, h, w), lambda i, k, y, x: float(rows[i][k] * 2 ** ((y + 2 * x) % 3)))
    if dtype == "uint16": a = put(env, (H, W), lambda y, x: int(exact(y, x)), "uint16")
    elif sym == "image": a = put(env, (H, W), lambda y, x: 500 * (1 - (y % 2)) + 100 + y + 2 * x + (env.real(f"a{y},{x}", -10, 10) if (y, x) in ((0, 0), (0, 2)) else 0))
    else: a = put(env, (H, W), lambda y, x: float(exact(y, x)))
    if sym == "image": e = put(env, (H, W), lambda y, x: 2.0 * (1 + x // 2))
    else: e = env.pixels("e", (H, W), dtype if dtype != "uint16" else "float64", 0, 300)
    d = demodulator(env, m, fl)
    im = env.ml.MicropolImage(a)
    if kind != "taken": im = im.demodulate(d)
    before = env.snap(observe(im), e, d.mij)
    r = env.ml.MicropolImageError(im, e, d)
    env.same("arguments", before, observe(im), e, d.mij)
    V = S_spec(env, m, e)
    S = put(env, (3, h, w), lambda k, y, x: getattr(im, "IQU"[k]).data[y, x])
    squared(env, "Stokes errors", r.sigma_S, V)
    for n, want in zip(("pB", "DoLP", "AoLP"), specs(env, S, V)): squared(env, n, getattr(r, "sigma_" + n), want)


def linear(env, h, w):
    """k times the pixel errors give k times every error."""
    m = fixed_demodulator(env, 2 * h, 2 * w).mij
    d = demodulator(env, m)
    im = fixed(env, 2 * h, 2 * w, exact)
    k = env.real("k", 0, 50)
    e = put(env, (2 * h, 2 * w), lambda y, x: 1.0 + (3 * y + 2 * x) % 5)
    one = env.ml.MicropolImageError(im, e, d)
    r = env.ml.MicropolImageError(im, put(env, (2 * h, 2 * w), lambda y, x: val(env, e[y, x]) * k), d)
    for n in ("S", "pB", "DoLP", "AoLP"):
        a, b = getattr(one, "sigma_" + n), getattr(r, "sigma_" + n)
        squared(env, f"sigma_{n}", b, put(env, a.shape, lambda *i: val(env, a[i]) * val(env, a[i]) * k * k))


def cases(tier):
    q = tier == "quick"
    for n, (h, w) in enumerate([(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (3, 4)] + ([] if q else [(5, 6), (4, 4)])):
        for dt in ("float64", "float32", "uint8", "uint16", "int32") if n in (0, 3) else ("float64", "uint16")[n % 2:n % 2 + 1]: yield Case(f"Stokes {h}x{w} {dt}", stokes, h=h, w=w, dtype=dt)
    for z in ("", "Q", "U"):
        yield Case(f"parameters, {z or 'none'} zero", propagate, zero=z, unit="")
        for u in "IQU": yield Case(f"parameters, {z or 'none'} zero, error of {u} alone", propagate, zero=z, unit=u)
    for h, w in ((2, 3), (3, 1)): yield Case(f"placed {h}x{w}", placed, h=h, w=w)
    for k in ("taken", "demodulated", "flags"):
        for h, w in ((1, 1), (2, 2), (1, 3)): yield Case(f"{k} {h}x{w}", whole, h=h, w=w, kind=k, dtype="float64", sym="errors")
        for h, w in ((1, 1), (1, 2)): yield Case(f"{k} any pixel {h}x{w}", whole, h=h, w=w, kind=k, dtype="float64", sym="image")
        yield Case(f"{k} uint16", whole, h=2, w=1, kind=k, dtype="uint16", sym="errors")
        yield Case(f"{k} integer errors", whole, h=1, w=2, kind=k, dtype="int16", sym="errors")
    for h, w in ((1, 1), (2, 2)): yield Case(f"linear {h}x{w}", linear, h=h, w=w)
