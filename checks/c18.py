from math import sin, cos, radians, pi
from .common import *
ID = "C18"
BOUNDS = "images of 2x2 to 4x6 (thorough 6x6) pixels, fresh, already demosaiced or demodulated, with and without demosaicing, arbitrary pixels, arbitrary 3x4 matrices and fit flags per superpixel, with and without a flag file, several orientation assignments, float64/float32/uint8/uint16/int16 images"


def spec(env, a, m, flags, dic, demosaicing):
    h, w = a.shape
    if demosaicing:
        p = spec_demosaic(env, a, "adjacent")
        theo, k = stokes_of_full(env, p, dic), 2
    else: p, theo, k = [fam(a, n) for n in range(4)], spec_stokes(env, a, dic), 1
    H, W = p[0].shape
    prod = lambda i, y, x: env.sum([val(env, m[i, n, y // k, x // k]) * val(env, p[n][y, x]) for n in range(4)])
    out = []
    for i in range(3):
        if flags is None: out.append(put(env, (H, W), lambda y, x: prod(i, y, x)))
        else: out.append(put(env, (H, W), lambda y, x: env.ite(flags[y // k][x // k], prod(i, y, x), theo[i][y, x])))
    return out


def make(env, h, w, with_flags):
    m = env.reals("m", (3, 4, h // 2, w // 2), -3, 3)
    f = [[env.bool(f"fit{y},{x}") for x in range(w // 2)] for y in range(h // 2)] if with_flags else None
    d = demodulator(env, m, None if f is None else put(env, (h // 2, w // 2), lambda y, x: env.ite(f[y][x], 1.0, 0.0)))
    return m, f, d


def product(env, h, w, dtype, with_flags, demosaicing, dic, state):
    hi = 255 if dtype == "uint8" else 4000
    a = env.pixels("a", (h, w), dtype, 0, hi)
    m, f, d = make(env, h, w, with_flags)
    im = env.ml.MicropolImage(a, angle_dic=dict(dic))
    if state == "demosaiced": im.demosaic("mean")
    if state == "demodulated":
        m0 = env.reals("m0", (3, 4, h // 2, w // 2), -3, 3)
        im = im.demodulate(demodulator(env, m0, path="first"))
    before = env.snap(observe(im), d.mij, d.fit_found_flags)
    r = im.demodulate(d, demosaicing=True) if demosaicing else im.demodulate(d)
    equal_stokes(env, "demodulated", r, spec(env, a, m, f, dic, demosaicing))
    env.equal("data", r.data, a)
    env.same("image and demodulator unchanged", before, observe(im), d.mij, d.fit_found_flags)
    if demosaicing:
        for k, s in enumerate(spec_demosaic(env, a, "adjacent")): env.equal(f"demosaiced image {k}", r.demosaiced_images[k], s)
    else: equal_stokes(env, "again", im.demodulate(d, False), spec(env, a, m, f, dic, False))


def moved(env, op):
    """A demodulator turned or flipped in memory is used as it is then."""
    a = env.reals("a", (4, 4), 0, 4000)
    m, f, d = make(env, 4, 4, True)
    if op == "rot90": d.rot90(); g = lambda y, x: (x, 1 - y)
    if op == "flip0": d.flip(0); g = lambda y, x: (1 - y, x)
    if op == "flip1": d.flip(1); g = lambda y, x: (y, 1 - x)
    mm = put(env, (3, 4, 2, 2), lambda i, j, y, x: m[(i, j) + g(y, x)])
    ff = [[f[g(y, x)[0]][g(y, x)[1]] for x in range(2)] for y in range(2)]
    r = env.ml.MicropolImage(a).demodulate(d)
    equal_stokes(env, op, r, spec(env, a, mm, ff, DEFAULT, False))


def inverse(env, t, e, phi, demosaicing):
    """Known instrument: modulation W, its inverse M, any incoming light."""
    import numpy
    W = numpy.array([[.5 * t[k], .5 * t[k] * e[k] * cos(2 * phi[k]), .5 * t[k] * e[k] * sin(2 * phi[k])] for k in range(4)])
    M = numpy.linalg.pinv(W)
    h, w = (1, 2) if not demosaicing else (1, 1)
    S = env.reals("S", (3, h, w), -1000, 1000)
    a = put(env, (2 * h, 2 * w), lambda y, x: env.sum([float(W[2 * (y % 2) + x % 2, i]) * S[i, y // 2, x // 2] for i in range(3)]))
    d = demodulator(env, put(env, (3, 4, h, w), lambda i, j, y, x: float(M[i, j])), put(env, (h, w), lambda y, x: 1.0))
    r = env.ml.MicropolImage(a).demodulate(d, demosaicing)
    k = 2 if demosaicing else 1
    for i, n in enumerate("IQU"): env.equal(f"{n} returned", getattr(r, n).data, put(env, (h * k, w * k), lambda y, x: S[i, y // k, x // k]))


def left_inverse(env, zero):
    """Any tensor M with M W = 1 for any modulation W returns the incoming light."""
    W, M, S = env.reals("W", (4, 3), -1, 1), env.reals("M", (3, 4), -20, 20), env.reals("S", (3,), -100, 100)
    for k, i in zero: W[k, i] = 0.0
    for i in range(3):
        for j in range(3): env.assume(env.eq(env.sum([M[i, k] * W[k, j] for k in range(4)]), 1 if i == j else 0))
    a = put(env, (2, 2), lambda y, x: env.sum([W[2 * y + x, i] * S[i] for i in range(3)]))
    r = env.ml.MicropolImage(a).demodulate(demodulator(env, put(env, (3, 4, 1, 1), lambda i, j, y, x: M[i, j])))
    for i, n in enumerate("IQU"): env.equal(f"{n} returned", getattr(r, n).data, put(env, (1, 1), lambda y, x: S[i]))


def cases(tier):
    n = 0
    deep = tier != "quick"
    for demosaicing in (False, True):
        for with_flags in (False, True):
            for h, w in ((2, 2), (2, 4), (4, 2), (4, 6)) + (((6, 6), (6, 4)) if deep else ()):
                for dt in ("float64", "uint8", "uint16", "int16", "float32") if deep or (h, w) == (2, 4) else (("float64", "uint16", "int16")[(h + w) // 2 % 3],):
                    n += 1
                    yield Case(f"{h}x{w} {dt}{' demosaicing' * demosaicing}{' flags' * with_flags}", product, h=h, w=w, dtype=dt, with_flags=with_flags, demosaicing=demosaicing, dic=ALL_DICS[11 * n % 24], state="")
            for st in ("demosaiced", "demodulated"):
                n += 1
                yield Case(f"{st} 4x4{' demosaicing' * demosaicing}{' flags' * with_flags}", product, h=4, w=4, dtype="float64", with_flags=with_flags, demosaicing=demosaicing, dic=ALL_DICS[11 * n % 24], state=st)
    for op in ("rot90", "flip0", "flip1"): yield Case(op, moved, op=op)
    ph = [radians(q) for q in (0, 45, -45, 90)]
    for dm in (False, True):
        yield Case(f"ideal instrument{' demosaicing' * dm}", inverse, t=(1,) * 4, e=(1,) * 4, phi=ph, demosaicing=dm)
        yield Case(f"real instrument{' demosaicing' * dm}", inverse, t=(.8, .75, .9, .6), e=(.9, .6, .8, .7), phi=[q + s for q, s in zip(ph, (.1, -.05, .2, -.12))], demosaicing=dm)
    yield Case("any instrument, one free row", left_inverse, zero=[(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)])
    yield Case("any instrument", left_inverse, zero=[])
